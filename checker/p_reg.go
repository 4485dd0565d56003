package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: registering commands and loading modules.

func init() {
	register(&Prop{
		ID: "C12", Title: "A bad or conflicting module changes and stops nothing but itself",
		Explain: "The stores which put a command, a sub-command or an abbreviation into the tree are followed path-sensitively (what is known about the place before); the registration of all builtin commands is interpreted with constant names; the walks which load modules are searched for panics which nothing contains; the code which loads one module is followed with the result of the registration split into a new command and the one which was there.",
		Run:     runC12,
	})
}

func runC12(w *World, r *Report) {
	c12Stores(w, r)
	c12Builtin(w, r)
	c12Lookups(w, r)
	c12Walks(w, r)
	c12Recovers(w, r)
	c12Records(w, r)
	c12Prints(w, r)
	c12Refused(w, r)
	c12Taken(w, r)
}

// cmdFieldStore: the store sets CmdTree.cmd of an existing node
func (w *World) cmdFieldStore(in ssa.Instruction) *ssa.Store {
	s, ok := in.(*ssa.Store)
	if !ok || !w.isField(s.Addr, "core/model", "CmdTree", "cmd") {
		return nil
	}
	if _, fresh := rootAddr(s.Addr).(*ssa.Alloc); fresh {
		return nil
	}
	return s
}

// registryMap: the map is one of those which hold registered names
func (w *World) registryMap(v ssa.Value) (typ, field string) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	if _, fresh := rootAddr(fa).(*ssa.Alloc); fresh {
		return
	}
	n := namedOf(deref(fa.X.Type()))
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != w.pkgPath("core/model") {
		return
	}
	switch n.Obj().Name() {
	case "CmdTree", "EnvAbbrs", "Args":
		return n.Obj().Name(), fieldName(fa.X.Type(), fa.Field)
	}
	return
}

// abbrMap: from the names one may type to the real ones
func (w *World) abbrMap(v ssa.Value) bool {
	t, _ := w.registryMap(v)
	m, ok := v.Type().Underlying().(*types.Map)
	return t != "" && ok && isStringT(m.Elem()) && isStringT(m.Key()) && !strings.Contains(strings.ToLower(fieldOf(w, v)), "defval")
}

func fieldOf(w *World, v ssa.Value) string { _, f := w.registryMap(v); return f }

// subsMap: from names to sub nodes
func (w *World) subsMap(v ssa.Value) bool {
	t, _ := w.registryMap(v)
	m, ok := v.Type().Underlying().(*types.Map)
	if t == "" || !ok {
		return false
	}
	n := namedOf(deref(m.Elem()))
	return n != nil && n.Obj().Name() == t
}

// regSpec follows what is known about places in the tree of commands.
func (w *World) regSpec(name string) *Spec {
	sp := &Spec{Name: name}
	sp.MaxDisj = 24
	sp.KeepFact = func(sym string) bool { return strings.HasSuffix(sym, ".cmd") || strings.HasPrefix(sym, "@has:") }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		l, ok := v.(*ssa.Lookup)
		if !ok || !(w.abbrMap(l.X) || w.subsMap(l.X)) {
			return nil
		}
		m, k := x.Val(l.X), x.Val(l.Index)
		n := fmt.Sprintf("@has:%s:%s", x.Fn.String(), l.Name())
		lk := "lk " + m.Key() + "|" + k.Key()
		if had := x.Get(lk); had != "" && had != n {
			// looked up before under this key
			n = had
		} else {
			for a := range x.St.auto {
				if strings.HasPrefix(a, "lk ") && x.St.auto[a] == n {
					delete(x.St.auto, a)
				}
			}
			x.St.retire(func(s string) bool { return s == n || s == n+":v" }, false)
			delete(x.St.facts, n)
			delete(x.St.facts, n+":v")
			x.Set(lk, n)
		}
		if l.CommaOk {
			return avTuple(avSym(n+":v"), avSym(n))
		}
		return avSym(n + ":v")
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		for a := range x.St.auto {
			if strings.HasPrefix(a, "lk ") && !strings.Contains(a, "|$p:") && !strings.Contains(a, "|=") {
				delete(x.St.auto, a)
			}
		}
	}
	return sp
}

// vacant: nothing is known to be under the key (a missing pointer or string reads as nil / "")
func (x *Ctx) vacant(m, k *AV) bool {
	n := x.Get("lk " + m.Key() + "|" + k.Key())
	if n == "" {
		return false
	}
	return x.Fact(n) == "false" || x.Fact(n+":v") == "nil" || x.Fact(n+":v") == "s:"
}

func c12Stores(w *World, r *Report) {
	cmdRule := "a-registered-command-is-not-replaced"
	abbrRule := "an-abbreviation-is-not-taken-over"
	subRule := "a-sub-command-is-not-dropped-by-adding-another"
	isEmpty := func(f *ssa.Function) bool {
		// tells of a command whether it holds anything
		if f == nil || f.Signature.Recv() == nil || !w.isPtrTo(f.Signature.Recv().Type(), "core/model", "Cmd") || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
			return false
		}
		// it looks at everything a command can be run by
		seen := map[string]bool{}
		forEachInstr(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				seen[fieldName(fa.X.Type(), fa.Field)] = true
			}
		})
		return seen["power"] && seen["normal"] && seen["flow"] && seen["cmdLine"] && seen["depends"]
	}
	judge := func(which string) func(root *ssa.Function, rep *Report) bool {
		return func(root *ssa.Function, rep *Report) bool {
			reached := false
			if pkgOf(root) == w.pkgPath("ticat") {
				// what an embedding program asks for
				return true
			}
			if !w.inPkg(root, "core/model") {
				return false
			}
			rule := map[string]string{"cmd": cmdRule, "abbr": abbrRule, "sub": subRule}[which]
			sp := w.regSpec(rule)
			base := sp.Value
			sp.Value = base
			sp.Event = func(c *ssa.CallCommon) bool { return false }
			sp.Inline = func(f *ssa.Function) bool {
				return w.inPkg(f, "core/model") && !isEmpty(f) && c12Relevant(w)[f]
			}
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if isEmpty(callee) {
					k := "empty " + args[0].Key()
					return &Action{Alts: []Alt{
						{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set(k, "1") }, Note: "the command is totally empty"},
						{Results: []*AV{avFalse}, Note: "the command holds something"},
					}}
				}
				if callee != nil && which == "abbr" {
					for i, p := range callee.Params {
						if isStringT(p.Type()) && i < len(args) && w.listsAbbr(callee, p) {
							x.Set("own "+args[i].Key(), "1")
						}
					}
				}
				return nil
			}
			own := func(x *Ctx) string { return w.FuncKey(x.Fn) }
			sp.Instr = func(x *Ctx, in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Store:
					if which != "cmd" || w.cmdFieldStore(in) == nil {
						return
					}
					reached = true
					cur := x.E.load(x.St, x.Val(in.Addr), deref(in.Addr.Type()), nil)
					if x.St.IsNil(cur) != "true" && x.Get("empty "+cur.Key()) == "" {
						x.Report(own(x)+" replaces a command", "the command of a node is set although nothing on this path showed that there is none (or a totally empty one)")
					}
					x.E.rep.Ok(rule, own(x), w.InstrPos(in), "")
				case *ssa.MapUpdate:
					if which == "abbr" && w.abbrMap(in.Map) {
						reached = true
						m, k, v := x.Val(in.Map), x.Val(in.Key), x.Val(in.Value)
						ok := x.vacant(m, k)
						self := k.K == v.K && k.Key() == v.Key()
						if self && x.Get("own "+k.Key()) != "" {
							ok = true
						}
						if !ok {
							x.Report(own(x)+" "+fieldOf(w, in.Map), "a name or abbreviation is (re)directed although nothing on this path showed that it is free")
						}
						x.E.rep.Ok(rule, own(x), w.InstrPos(in), "")
						x.Set("own "+v.Key(), "1")
					}
					if which == "sub" && w.subsMap(in.Map) {
						reached = true
						if !x.vacant(x.Val(in.Map), x.Val(in.Key)) {
							x.Report(own(x)+" "+fieldOf(w, in.Map), "a sub node is put in place although nothing on this path showed that there is none of this name")
						}
						x.E.rep.Ok(rule, own(x), w.InstrPos(in), "")
					}
				}
			}
			e := NewEngine(w, rep, rule, sp)
			e.Run(root, nil, nil)
			rep.Engine(e)
			return reached
		}
	}
	for _, which := range []string{"cmd", "abbr", "sub"} {
		for _, f := range w.Funcs {
			if !w.InModule(f) || f.Parent() != nil || !w.inPkg(f, "core/model") {
				continue
			}
			has := false
			forEachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Store:
					has = has || which == "cmd" && w.cmdFieldStore(in) != nil
				case *ssa.MapUpdate:
					has = has || which == "abbr" && w.abbrMap(in.Map)
				}
			})
			if has {
				w.climb(r, f, 3, judge(which))
			}
		}
	}
	// sub nodes: adding is judged where it is called from
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.inPkg(f, "core/model") {
			continue
		}
		adds := false
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && w.putsSub(g) && !w.putsSub(f) {
					adds = true
				}
			}
			if m, ok := in.(*ssa.MapUpdate); ok && w.subsMap(m.Map) && !w.putsSub(f) {
				adds = true
			}
		})
		if adds {
			w.climb(r, f, 2, judge("sub"))
		}
	}
	r.Floor(cmdRule, 3)
	r.Floor(abbrRule, 2)
	r.Floor(subRule, 1)
}

// listsAbbr: p is one of the names which f enters as abbreviations (of p)
func (w *World) listsAbbr(f *ssa.Function, p *ssa.Parameter) bool {
	enters, listed := false, false
	forEachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			enters = enters || w.abbrMap(in.Map) && in.Value == ssa.Value(p)
		case *ssa.Store:
			if _, ok := in.Addr.(*ssa.IndexAddr); ok && in.Val == ssa.Value(p) {
				listed = true
			}
		}
	})
	return enters && listed
}

// putsSub: an exported method which adds a sub node of the given name, to be
// called only with a name which is new (its callers are judged)
func (w *World) putsSub(f *ssa.Function) bool {
	return w.Memo("putsSub", func() interface{} {
		out := map[*ssa.Function]bool{}
		exported := func(f *ssa.Function) bool {
			return f.Object() != nil && f.Object().Exported() && f.Parent() == nil && w.inPkg(f, "core/model") && f.Signature.Recv() != nil &&
				f.Signature.Params().Len() > 0 && isStringT(f.Signature.Params().At(0).Type()) && f.Signature.Results().Len() == 1
		}
		for _, f := range w.Funcs {
			if !w.InModule(f) || !exported(f) {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				if m, ok := in.(*ssa.MapUpdate); ok && w.subsMap(m.Map) && m.Key == ssa.Value(f.Params[1]) && !strings.HasPrefix(f.Name(), "GetOr") {
					out[f] = true
				}
			})
		}
		for ch := true; ch; {
			ch = false
			for _, f := range w.Funcs {
				if out[f] || !w.InModule(f) || !exported(f) || len(f.Blocks) > 3 {
					continue
				}
				looks := false
				passes := false
				forEachInstr(f, func(in ssa.Instruction) {
					switch in := in.(type) {
					case *ssa.Lookup:
						looks = looks || w.subsMap(in.X)
					case ssa.CallInstruction:
						if g := in.Common().StaticCallee(); g != nil && out[g] && len(in.Common().Args) > 1 && in.Common().Args[1] == ssa.Value(f.Params[1]) {
							passes = true
						}
					}
				})
				if passes && !looks {
					out[f] = true
					ch = true
				}
			}
		}
		return out
	}).(map[*ssa.Function]bool)[f]
}

// c12Relevant: functions of the model which change what is registered
func c12Relevant(w *World) map[*ssa.Function]bool {
	return w.Memo("c12rel", func() interface{} {
		out := map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if !w.InModule(f) || !w.inPkg(f, "core/model") {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Store:
					if w.cmdFieldStore(in) != nil {
						out[f] = true
					}
				case *ssa.MapUpdate:
					if w.abbrMap(in.Map) || w.subsMap(in.Map) {
						out[f] = true
					}
				case *ssa.FieldAddr:
					// reads of the command: its checks
					if w.isField(in, "core/model", "CmdTree", "cmd") {
						out[f] = true
					}
				case *ssa.Lookup:
					if w.abbrMap(in.X) || w.subsMap(in.X) {
						out[f] = true
					}
				}
			})
		}
		for ch := true; ch; {
			ch = false
			for _, f := range w.Funcs {
				if out[f] || !w.InModule(f) || !w.inPkg(f, "core/model") || !(recvIs(w, f, "CmdTree") || recvIs(w, f, "EnvAbbrs") || recvIs(w, f, "Args")) {
					continue
				}
				forEachInstr(f, func(in ssa.Instruction) {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && out[g] && !out[f] {
							out[f] = true
							ch = true
						}
					}
				})
			}
		}
		return out
	}).(map[*ssa.Function]bool)
}

func recvIs(w *World, f *ssa.Function, typ string) bool {
	rv := f.Signature.Recv()
	return rv != nil && (w.isPtrTo(rv.Type(), "core/model", typ) || w.isNamed(rv.Type(), "core/model", typ))
}

// ---- the builtin commands

func c12Builtin(w *World, r *Report) {
	rule := "no-two-builtin-commands-of-one-name"
	calls := func(f *ssa.Function) map[*ssa.Function]bool { return w.closureOf(f) }
	_ = calls
	isTree := func(t types.Type) bool { return w.isPtrTo(t, "core/model", "CmdTree") }
	isAbbr := func(t types.Type) bool { return w.isPtrTo(t, "core/model", "EnvAbbrs") }
	isCmd := func(t types.Type) bool { return w.isPtrTo(t, "core/model", "Cmd") }
	var roots []*ssa.Function
	adds := w.Relevant(func(c *ssa.CallCommon) bool { g := c.StaticCallee(); return g != nil && w.putsSub(g) })
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !adds[f] || w.inPkg(f, "core/model") || w.inPkg(f, "ticat") {
			continue
		}
		// called from nowhere with a part of the tree, or from the setup
		top := true
		for _, c := range w.callerFns()[f] {
			if adds[c] && !w.inPkg(c, "ticat") {
				top = false
			}
		}
		takes := false
		for _, p := range f.Params {
			if isTree(p.Type()) || isAbbr(p.Type()) {
				takes = true
			}
		}
		if top && takes {
			roots = append(roots, f)
		}
	}
	for _, root := range roots {
		sp := &Spec{Name: rule, MaxDisj: 4}
		sp.Event = func(c *ssa.CallCommon) bool {
			s := c.Signature()
			return s.Recv() != nil && (isTree(s.Recv().Type()) || isAbbr(s.Recv().Type()) || isCmd(s.Recv().Type()))
		}
		sp.Within = func(f *ssa.Function) bool { return !w.inPkg(f, "core/model") }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if callee == nil || callee.Signature.Recv() == nil || len(args) == 0 {
				return nil
			}
			rt := callee.Signature.Recv().Type()
			if !isTree(rt) && !isAbbr(rt) && !isCmd(rt) {
				return nil
			}
			self := args[0]
			if w.putsSub(callee) {
				name := ""
				if len(args) > 1 {
					name, _ = args[1].IsStr()
				}
				if name == "" || self.K != kSym {
					return nil
				}
				p := strings.TrimPrefix(self.Sym, "@cmdof ") + "·" + nameSan.Replace(name)
				if x.Get("sub "+p) != "" {
					x.Report(p, "the name %q is added twice below the same node: the first one is lost with all below it", name)
				}
				x.Set("sub "+p, "1")
				x.E.rep.Ok(rule, p, w.InstrPos(x.In), "")
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil(p)}}}}
			}
			rs := callee.Signature.Results()
			if rs.Len() != 1 {
				return &Action{Opaque: true, Pure: true}
			}
			res := rs.At(0).Type()
			switch {
			case isCmd(res) && isTree(rt):
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@cmdof " + self.Sym)}}}}
			case isTree(res) && isCmd(rt):
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil(strings.TrimPrefix(self.Sym, "@cmdof "))}}}}
			case types.Identical(res, rt):
				if strings.HasPrefix(callee.Name(), "Get") && len(args) > 1 {
					// the elements of a variadic path
					if names := constElems(c.Args[1]); names != nil {
						p := self.Sym
						for _, n := range names {
							p += "·" + nameSan.Replace(n)
						}
						return &Action{Alts: []Alt{{Results: []*AV{avNonNil(p)}}}}
					}
					if n, ok := args[1].IsStr(); ok {
						return &Action{Alts: []Alt{{Results: []*AV{avNonNil(self.Sym + "·" + nameSan.Replace(n))}}}}
					}
					return &Action{Opaque: true, Pure: true}
				}
				if callee.Name() == "Parent" {
					return &Action{Opaque: true, Pure: true}
				}
				return &Action{Alts: []Alt{{Results: []*AV{self}}}}
			}
			return &Action{Opaque: true, Pure: true}
		}
		e := NewEngine(w, r, rule, sp)
		ps := map[string]*AV{}
		for _, p := range root.Params {
			if isTree(p.Type()) || isAbbr(p.Type()) {
				ps[p.Name()] = avNonNil("@tree")
			}
		}
		e.Run(root, ps, nil)
		r.Engine(e)
	}
	r.Floor(rule, 30)
}

// constElems: the constant strings of a slice literal
func constElems(v ssa.Value) []string {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]string, at.Len())
	n := 0
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := constInt(ia.Index)
		if !ok || i >= at.Len() {
			return nil
		}
		for _, s := range storesTo(ia) {
			c, ok := s.Val.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String {
				return nil
			}
			out[i] = constant.StringVal(c.Value)
			n++
		}
	}
	if n != len(out) {
		return nil
	}
	return out
}

// ---- looking up does not register

func c12Lookups(w *World, r *Report) {
	rule := "looking-up-a-command-registers-nothing"
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.inPkg(f, "core/model") || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if !recvIs(w, f, "CmdTree") && !recvIs(w, f, "EnvAbbrs") && !recvIs(w, f, "Args") {
			continue
		}
		n := f.Name()
		mut := false
		for _, p := range []string{"Reg", "Add", "Set", "GetOrAdd", "Replace", "Reorder", "Remove", "Delete", "Execute", "Init", "Load", "Merge", "Move", "Rename", "Clear", "Insert", "Register", "Ensure"} {
			mut = mut || strings.HasPrefix(n, p)
		}
		if mut || f.Signature.Results().Len() == 0 {
			continue
		}
		sp := w.regSpec(rule)
		sp.Inline = func(g *ssa.Function) bool { return w.inPkg(g, "core/model") && c12Relevant(w)[g] }
		sp.Event = func(c *ssa.CallCommon) bool { return false }
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			bad := ""
			switch in := in.(type) {
			case *ssa.Store:
				if w.cmdFieldStore(in) != nil {
					bad = "the command of a node is set"
				}
			case *ssa.MapUpdate:
				if t, fl := w.registryMap(in.Map); t != "" && (w.abbrMap(in.Map) || w.subsMap(in.Map)) {
					bad = "an entry is added to " + t + "." + fl
				}
			case ssa.CallInstruction:
				if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					if t, fl := w.registryMap(in.Common().Args[0]); t != "" {
						bad = "an entry is removed from " + t + "." + fl
					}
				}
			}
			if bad != "" {
				x.Report(w.FuncKey(f), "a lookup (%s) changes what is registered: %s", n, bad)
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
		if strings.HasPrefix(n, "Get") {
			r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "")
		}
	}
	r.Floor(rule, 2)
}
