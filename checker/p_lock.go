package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: what the foreground and background commands share is touched only under its lock.

func init() {
	register(&Prop{
		ID: "C06", Title: "State shared with background commands is only touched under its lock",
		Explain: "Lock-set typestate dataflow over every function that touches a type bearing a mutex (helpers in context), lock-order graph, blocking operations under a lock, unlock on every path; package-level variables are never written after start-up.",
		Run:     runC06,
	})
}

func isMutex(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

type lockedType struct {
	named   *types.Named
	st      *types.Struct
	lock    string
	mutable map[string]bool // fields that need the lock on every access
	deep    map[string]bool // fields whose pointee needs the lock
}

func (w *World) lockedTypes() map[*types.Named]*lockedType {
	return w.Memo("lockedTypes", func() interface{} {
		out := map[*types.Named]*lockedType{}
		for _, p := range w.SSAPkgs {
			if !strings.HasPrefix(p.Pkg.Path(), w.ModPath) {
				continue
			}
			for _, m := range p.Members {
				t, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				n, ok := t.Type().(*types.Named)
				if !ok {
					continue
				}
				st, ok := n.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if isMutex(deref(st.Field(i).Type())) {
						out[n] = &lockedType{n, st, st.Field(i).Name(), map[string]bool{}, map[string]bool{}}
					}
				}
			}
		}
		// fields that change after construction
		for _, f := range w.Funcs {
			if len(f.Blocks) == 0 || !w.InModule(f) {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				var addr ssa.Value
				switch in := in.(type) {
				case *ssa.Store:
					addr = in.Addr
				case *ssa.MapUpdate:
					addr = derefVal(in.Map)
				case ssa.CallInstruction:
					if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						addr = derefVal(in.Common().Args[0])
					}
				}
				if addr == nil {
					return
				}
				if lt, fld, base := lockedField(out, addr); lt != nil {
					if _, fresh := base.(*ssa.Alloc); !fresh {
						lt.mutable[fld] = true
					}
				}
			})
		}
		for _, lt := range out {
			for i := 0; i < lt.st.NumFields(); i++ {
				f := lt.st.Field(i)
				if p, ok := f.Type().Underlying().(*types.Pointer); ok {
					n := namedOf(p.Elem())
					if n == nil || isMutex(n) {
						continue
					}
					if _, has := out[n]; has {
						continue
					}
					if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), w.ModPath) || lt.mutable[f.Name()] {
						lt.deep[f.Name()] = true
					}
				}
			}
		}
		return out
	}).(map[*types.Named]*lockedType)
}

// lockedField: addr leads into field fld of an object (base) that bears a lock
func lockedField(ts map[*types.Named]*lockedType, addr ssa.Value) (*lockedType, string, ssa.Value) {
	for i := 0; i < 6; i++ {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			if n := namedOf(deref(a.X.Type())); n != nil {
				if lt := ts[n]; lt != nil {
					return lt, fieldName(a.X.Type(), a.Field), a.X
				}
			}
			addr = a.X
			continue
		case *ssa.IndexAddr:
			addr = derefVal(a.X)
			continue
		}
		break
	}
	return nil, "", nil
}

func runC06(w *World, r *Report) {
	rule := "shared-state-only-under-its-lock"
	ts := w.lockedTypes()
	// functions that touch locked objects
	touches := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if n := namedOf(deref(fa.X.Type())); n != nil && ts[n] != nil {
					touches[f] = true
				}
			}
		})
	}
	// helpers called only from such functions are judged where they are called
	callers := w.callersOf()
	_ = callers
	called := map[*ssa.Function]map[*ssa.Function]bool{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			var direct *ssa.Function
			if c, ok := in.(ssa.CallInstruction); ok {
				direct = c.Common().StaticCallee()
				if _, isGo := in.(*ssa.Go); isGo && direct != nil {
					escapes[direct] = true
				}
			}
			if direct != nil {
				if called[direct] == nil {
					called[direct] = map[*ssa.Function]bool{}
				}
				called[direct][f] = true
			}
			var rands [12]*ssa.Value
			for i, op := range in.Operands(rands[:0]) {
				g, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if _, isCall := in.(ssa.CallInstruction); isCall && i == 0 && g == direct {
					continue
				}
				if _, isMC := in.(*ssa.MakeClosure); isMC {
					continue
				}
				escapes[g] = true
			}
		})
	}
	isHelper := func(f *ssa.Function) bool {
		if escapes[f] || f.Object() == nil || f.Object().Exported() || len(called[f]) == 0 {
			return f.Parent() != nil && !escapes[f]
		}
		for c := range called[f] {
			if !touches[topFunc(c)] && !touches[c] {
				return false
			}
		}
		return true
	}
	order := map[string]map[string]string{}
	edge := func(a, b, where string) {
		if order[a] == nil {
			order[a] = map[string]string{}
		}
		if order[a][b] == "" {
			order[a][b] = where
		}
	}
	// which locks a call may take (for the order)
	takes := map[*ssa.Function]map[string]bool{}
	var takesOf func(f *ssa.Function) map[string]bool
	takesOf = func(f *ssa.Function) map[string]bool {
		if m, ok := takes[f]; ok {
			return m
		}
		m := map[string]bool{}
		takes[f] = m
		for g := range w.closureOf(f) {
			forEachInstr(g, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n := lockName(ts, c.Common()); n != "" && strings.HasSuffix(calleeObj(c.Common()).Name(), "Lock") && calleeObj(c.Common()).Name() != "Unlock" && calleeObj(c.Common()).Name() != "RUnlock" {
						m[n] = true
					}
				}
			})
		}
		return m
	}
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if rc := f.Signature.Recv(); rc != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
			if n := namedOf(deref(rc.Type())); n != nil && ts[n] != nil && !touches[f] {
				roots = append(roots, f)
			}
		}
	}
	for f := range touches {
		if f.Parent() == nil && !isHelper(f) {
			roots = append(roots, f)
		} else if f.Parent() != nil && escapes[f] {
			roots = append(roots, f)
		}
	}
	// closures of untouched functions
	for f := range touches {
		if f.Parent() != nil && !escapes[f] && !touches[topFunc(f)] {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return w.FuncKey(roots[i]) < w.FuncKey(roots[j]) })
	for _, root := range roots {
		root := root
		sp := &Spec{Name: rule}
		sp.Inline = func(g *ssa.Function) bool {
			if g.Signature.Recv() != nil && root.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), root.Signature.Recv().Type()) {
				return true
			}
			return touches[g] && (isHelper(g) || g.Parent() != nil)
		}
		heldKey := func(sym string) string { return "held:" + strings.TrimSuffix(sym, "~") }
		anyHeld := func(x *Ctx) string {
			for _, k := range sortedKeys(x.St.auto) {
				if strings.HasPrefix(k, "held:") {
					return x.St.auto[k]
				}
			}
			return ""
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			at := w.FuncKey(x.Fn)
			if o := calleeObj(c); o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync" && len(args) > 0 {
				base := args[0].Sym
				lt := lockName(ts, c)
				switch o.Name() {
				case "Lock", "RLock":
					if x.Get(heldKey(base)) != "" {
						x.Report(at+" relock", "a lock is taken again while it is held: the command hangs for ever")
					}
					for _, k := range sortedKeys(x.St.auto) {
						if strings.HasPrefix(k, "held:") && lt != "" {
							edge(x.St.auto[k], lt, at)
						}
					}
					if lt == "" {
						lt = "?"
					}
					x.Set(heldKey(base), lt)
					if x.Get("was:"+base) != "" {
						x.Report(w.FuncKey(root)+" split", "one operation gives its lock up in the middle: what it found out before can be outdated by a background command when it goes on")
					}
				case "Unlock", "RUnlock":
					if x.Get(heldKey(base)) == "" {
						x.Report(at+" unlock", "a lock is released that is not held on some path")
					}
					x.Set(heldKey(base), "")
					if len(root.Params) > 0 && root.Signature.Recv() != nil && strings.HasPrefix(base, "p:"+root.Params[0].Name()+".") && strings.Count(base, ".") == 1 {
						x.Set("was:"+base, "1")
					}
				}
				return &Action{Opaque: true, Pure: true}
			}
			// pointees
			for i, a := range c.Args {
				lt, fld, _ := lockedField(ts, derefVal(a))
				if _, isLoad := a.(*ssa.UnOp); !isLoad || lt == nil || !lt.deep[fld] {
					continue
				}
				sym := args[i].Sym
				if h := strings.LastIndex(sym, "."); h > 0 && x.Get(heldKey(sym[:h]+"."+lt.lock)) == "" && !isCell(sym) {
					x.Report(at+" "+fld, "%s.%s is used without its lock", lt.named.Obj().Name(), fld)
				}
			}
			if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "len") {
				w.c06Access(x, ts, r, rule, derefVal(c.Args[0]), heldKey)
				return nil
			}
			if held := anyHeld(x); held != "" {
				o := calleeObj(c)
				if o != nil && o.Pkg() != nil && (o.Pkg().Path() == "time" && o.Name() == "Sleep" || o.Pkg().Path() == "os/exec" && (o.Name() == "Run" || o.Name() == "Wait" || o.Name() == "Output" || o.Name() == "CombinedOutput")) {
					x.Report(at+" blocks", "sleeps or waits for a process while holding the lock of %s", held)
				}
				if callee != nil && w.InModule(callee) && !sp.Inline(callee) {
					for g := range w.closureOf(callee) {
						if w.blocks(g) {
							x.Report(at+" blocks "+w.FuncKey(callee), "waits for another command or a channel while holding the lock of %s", held)
							break
						}
					}
					for _, l := range sortedKeys(takesOf(callee)) {
						edge(held, l, at)
					}
				} else if callee == nil && !c.IsInvoke() {
					if _, isB := c.Value.(*ssa.Builtin); !isB {
						x.Report(at+" dynamic", "calls code given from outside while holding the lock of %s", held)
					}
				}
			}
			return nil
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			at := w.FuncKey(x.Fn)
			switch in := in.(type) {
			case *ssa.Store:
				w.c06Access(x, ts, r, rule, in.Addr, heldKey)
			case *ssa.UnOp:
				if in.Op.String() == "*" {
					w.c06Access(x, ts, r, rule, in.X, heldKey)
				}
				if in.Op.String() == "<-" {
					if h := anyHeld(x); h != "" {
						x.Report(at+" receives", "waits on a channel while holding the lock of %s", h)
					}
				}
			case *ssa.Send:
				if h := anyHeld(x); h != "" {
					x.Report(at+" sends", "waits on a channel while holding the lock of %s", h)
				}
			case *ssa.Select:
				if h := anyHeld(x); h != "" && in.Blocking {
					x.Report(at+" selects", "waits on a channel while holding the lock of %s", h)
				}
			case *ssa.Lookup:
				w.c06Access(x, ts, r, rule, derefVal(in.X), heldKey)
			case *ssa.MapUpdate:
				w.c06Access(x, ts, r, rule, derefVal(in.Map), heldKey)
			case *ssa.Next:
				if rg, ok := in.Iter.(*ssa.Range); ok {
					w.c06Access(x, ts, r, rule, derefVal(rg.X), heldKey)
				}
			}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind == exExit {
				return
			}
			if h := anyHeld(x); h != "" {
				x.Report(w.FuncKey(root)+" keeps", "the lock of %s is still held when the function ends (%s): whoever needs it next hangs for ever", h, o.Kind)
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, nil, nil)
		r.Engine(e)
	}
	// lock order
	orule := "locks-are-taken-in-one-order"
	for _, a := range sortedKeys(order) {
		for _, b := range sortedKeys(order[a]) {
			r.Ok(orule, a+" before "+b, order[a][b], "")
			// is a reachable from b?
			seen := map[string]bool{}
			var dfs func(n string) bool
			dfs = func(n string) bool {
				if n == a {
					return true
				}
				if seen[n] {
					return false
				}
				seen[n] = true
				for m := range order[n] {
					if dfs(m) {
						return true
					}
				}
				return false
			}
			if dfs(b) {
				r.Violation(orule, a+" / "+b, order[a][b], fmt.Sprintf("the lock of %s is taken while holding the one of %s and the other way round", b, a), nil)
			}
		}
	}
	c06Globals(w, r)
	var names []string
	for _, lt := range ts {
		names = append(names, lt.named.Obj().Name()+": "+strings.Join(sortedKeys(lt.mutable), ",")+" | "+strings.Join(sortedKeys(lt.deep), ","))
	}
	sort.Strings(names)
	r.Facts["locked types, guarded fields | guarded pointees"] = names
	r.Floor(rule, 12)
	for _, n := range []string{"BgTasks", "BgTask", "BgStdout"} {
		found := false
		for t := range ts {
			found = found || t.Obj().Name() == n
		}
		if !found {
			r.Violation(rule, n, "-", "a type shared between the foreground and background commands has no lock", nil)
		}
	}
}

// blocks: contains a channel operation or runs a command
func (w *World) blocks(f *ssa.Function) bool {
	hit := false
	forEachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Send:
			hit = true
		case *ssa.UnOp:
			hit = hit || in.Op.String() == "<-"
		case *ssa.Select:
			hit = hit || in.Blocking
		case ssa.CallInstruction:
			if w.callsExecutorExecute(in.Common()) {
				hit = true
			}
		}
	})
	return hit
}

// lockName: the type whose lock the call operates on
func lockName(ts map[*types.Named]*lockedType, c *ssa.CallCommon) string {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" || len(c.Args) == 0 {
		return ""
	}
	if lt, _, _ := lockedField(ts, derefVal(c.Args[0])); lt != nil {
		return lt.named.Obj().Name()
	}
	return ""
}

func (w *World) c06Access(x *Ctx, ts map[*types.Named]*lockedType, r *Report, rule string, addr ssa.Value, heldKey func(string) string) {
	lt, fld, base := lockedField(ts, addr)
	if lt == nil || !lt.mutable[fld] {
		return
	}
	// part of a guarded aggregate that never changes
	if sub, ok := addr.(*ssa.FieldAddr); ok && sub.X != base {
		if !w.subMutable(lt, fld, sub) {
			return
		}
	}
	b := x.Val(base)
	if b.K == kAddr && isCell(b.Sym) {
		return // under construction
	}
	if b.Sym == "" {
		return
	}
	at := w.FuncKey(x.Fn)
	r.Ok(rule, at+" "+lt.named.Obj().Name()+"."+fld, w.InstrPos(x.In), "")
	if x.Get(heldKey(b.Sym+"."+lt.lock)) == "" {
		x.Report(at+" "+lt.named.Obj().Name()+"."+fld, "%s.%s is touched without its lock: a background command can touch it at the same time", lt.named.Obj().Name(), fld)
	}
}

// subMutable: the nested field changes after construction
func (w *World) subMutable(lt *lockedType, fld string, sub *ssa.FieldAddr) bool {
	name := fieldName(sub.X.Type(), sub.Field)
	n := namedOf(deref(sub.X.Type()))
	if n == nil {
		return true
	}
	ts := w.lockedTypes()
	mut := false
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			l2, f2, base := lockedField(ts, s.Addr)
			if l2 != lt || f2 != fld {
				return
			}
			if _, fresh := base.(*ssa.Alloc); fresh {
				return
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X != base {
				if fieldName(fa.X.Type(), fa.Field) == name {
					mut = true
				}
			} else {
				mut = true // whole aggregate replaced
			}
		})
	}
	return mut
}

// package-level variables are set up once
func c06Globals(w *World, r *Report) {
	rule := "no-hidden-shared-variable"
	n := 0
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		top := topFunc(f)
		if strings.HasPrefix(top.Name(), "init") && top.Signature.Params().Len() == 0 && top.Signature.Recv() == nil && (top.Synthetic != "" || strings.HasPrefix(top.Name(), "init#") || top.Name() == "init") {
			continue
		}
		n++
		forEachInstr(f, func(in ssa.Instruction) {
			var addr ssa.Value
			switch in := in.(type) {
			case *ssa.Store:
				addr = in.Addr
			case *ssa.MapUpdate:
				addr = derefVal(in.Map)
			default:
				return
			}
			for i := 0; i < 8; i++ {
				switch a := addr.(type) {
				case *ssa.FieldAddr:
					addr = a.X
					continue
				case *ssa.IndexAddr:
					addr = a.X
					continue
				case *ssa.UnOp:
					addr = a.X
					continue
				}
				break
			}
			if g, ok := addr.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), w.ModPath) {
				r.Violation(rule, w.FuncKey(f)+" "+g.Name(), w.InstrPos(in), "a package-level variable is written while commands run; foreground and background commands share it without a lock", nil)
			}
		})
	}
	r.Ok(rule, "functions examined", fmt.Sprint(n), "")
	r.Facts["functions examined for writes of package-level variables"] = n
}
