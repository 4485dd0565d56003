package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- one file which fails does not keep the others from loading

// registers: functions which (transitively) set the command of a node
func (w *World) registers() map[*ssa.Function]bool {
	return w.Memo("registers", func() interface{} {
		sets := map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if w.InModule(f) {
				forEachInstr(f, func(in ssa.Instruction) {
					if w.cmdFieldStore(in) != nil {
						sets[f] = true
					}
				})
			}
		}
		return w.Relevant(func(c *ssa.CallCommon) bool { g := c.StaticCallee(); return g != nil && sets[g] })
	}).(map[*ssa.Function]bool)
}

func (w *World) onErr(c *ssa.CallCommon) bool {
	o := calleeObj(c)
	return o != nil && w.callsMethod(c, "core/model", "TolerableErrs", o.Name()) && c.Signature().Results().Len() == 0 && len(c.Args) > 1
}

// recovery: the function handed to a defer which recovers, nil if none
func recoveries(f *ssa.Function) map[*ssa.Defer]*ssa.Function {
	out := map[*ssa.Defer]*ssa.Function{}
	forEachInstr(f, func(in ssa.Instruction) {
		d, ok := in.(*ssa.Defer)
		if !ok {
			return
		}
		for _, g := range calleesOf(d.Common()) {
			forEachInstr(g, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
						out[d] = g
					}
				}
			})
		}
	})
	return out
}

// contained: every call of f after its start is below a deferred recover
func (w *World) contained(f *ssa.Function) (*ssa.Function, bool) {
	for d, g := range recoveries(f) {
		if d.Block() != f.Blocks[0] {
			continue
		}
		ok := true
		for _, in := range f.Blocks[0].Instrs {
			if in == ssa.Instruction(d) {
				break
			}
			if c, is := in.(ssa.CallInstruction); is {
				if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
					ok = false
				}
			}
			if _, is := in.(*ssa.Panic); is {
				ok = false
			}
		}
		if ok {
			return g, true
		}
	}
	return nil, false
}

func c12Walks(w *World, r *Report) {
	loose := "a-file-which-fails-to-load-is-contained"
	gone := "a-file-which-can-not-be-read-is-not-loaded"
	next := "the-walk-goes-on-to-the-next-file"
	reg := w.registers()
	for _, f := range w.Funcs {
		if !w.InModule(f) {
			continue
		}
		f := f
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := fullName(ci.Common())
			if n != "path/filepath.Walk" && n != "path/filepath.WalkDir" {
				return
			}
			for _, cb := range funcsOf(ci.Common().Args[1], 0) {
				if !reg[cb] || len(cb.Params) != 3 {
					continue
				}
				where := w.FuncKey(f) + " walk"
				// panics which nothing contains
				seen := map[*ssa.Function]bool{}
				var search func(g *ssa.Function, path []string)
				search = func(g *ssa.Function, path []string) {
					if seen[g] || !w.InModule(g) {
						return
					}
					seen[g] = true
					r.Funcs[w.FuncKey(g)] = true
					if _, ok := w.contained(g); ok {
						r.Ok(loose, where+" "+w.FuncKey(g), w.Pos(g.Pos()), "contained by a deferred recover")
						return
					}
					forEachInstr(g, func(in ssa.Instruction) {
						if p, ok := in.(*ssa.Panic); ok && p.Pos().IsValid() {
							r.Violation(loose, where+" "+w.FuncKey(g), w.InstrPos(in), "this panic ends the whole run while modules are loaded: no recover is between it and the walk", path)
						}
						if c, ok := in.(ssa.CallInstruction); ok {
							if _, isDefer := in.(*ssa.Defer); isDefer {
								return
							}
							for _, h := range calleesOf(c.Common()) {
								search(h, append(append([]string(nil), path...), w.FuncKey(g)+" calls "+w.FuncKey(h)+" at "+w.InstrPos(in)))
							}
						}
					})
				}
				search(cb, nil)
				// each way the walk may call it
				for _, m := range []struct {
					name      string
					info, err *AV
				}{
					{"a file", avNonNil("@info"), avNil},
					{"something which is gone", avNil, avNonNil("@err")},
					{"a dir which can not be read", avNonNil("@info"), avNonNil("@err")},
				} {
					m := m
					sp := &Spec{Name: next}
					sp.Event = func(c *ssa.CallCommon) bool { g := c.StaticCallee(); return g != nil && reg[g] }
					sp.Inline = func(g *ssa.Function) bool {
						if _, ok := w.contained(g); ok {
							return false
						}
						return w.inPkg(g, "mods/builtin") && (reg[g] || returnsError(g))
					}
					sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
						if c.IsInvoke() && args[0].K == kSym && args[0].Sym == "@info" && c.Method.Name() == "IsDir" {
							if m.name == "a dir which can not be read" {
								x.Set("dir", "1")
								return &Action{Alts: []Alt{{Results: []*AV{avTrue}}}}
							}
							return &Action{Alts: []Alt{
								{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("dir", "1") }, Note: "a directory"},
								{Results: []*AV{avFalse}, Note: "a file"}}}
						}
						if c.IsInvoke() && args[0].K == kConst && args[0].C == "nil" && m.info == avNil {
							x.E.rep.Violation(gone, where, w.InstrPos(x.In), "the walk may pass no file info (the file or root is gone), this call then crashes", x.St.Trace(20))
							return &Action{Drop: true}
						}
						if callee != nil && reg[callee] {
							if _, ok := w.contained(callee); ok || callee.Parent() == nil {
								if m.info == avNil {
									x.E.rep.Violation(gone, where, w.InstrPos(x.In), "a module is loaded from a path of which the walk says that it can not be read (a root which is gone is not below itself)", x.St.Trace(20))
								}
								x.E.rep.Ok(gone, where, w.InstrPos(x.In), m.name)
								if _, ok := w.contained(callee); ok {
									return &Action{Opaque: true}
								}
							}
						}
						return nil
					}
					if m.info == avNil {
						sp.Instr = func(x *Ctx, in ssa.Instruction) {
							sl, ok := in.(*ssa.Slice)
							if !ok || x.Fn != cb || !isStringT(sl.X.Type()) || (sl.Low == nil && sl.High == nil) {
								return
							}
							if _, isC := constInt2(sl.Low); isC && sl.High == nil {
								return
							}
							if sl.Low == nil || isZero(sl.Low) {
								return
							}
							x.E.rep.Violation(gone, where, w.InstrPos(in), "the path is cut although it may be the root itself (the walk reports that it is gone)", x.St.Trace(20))
						}
					}
					sp.Exit = func(x *Ctx, o *Outcome) {
						if o.Kind != exReturn || len(o.Results) != 1 {
							return
						}
						v := o.Results[0]
						if v.K == kConst && v.C == "nil" {
							x.E.rep.Ok(next, where, w.Pos(cb.Pos()), m.name)
							return
						}
						if strings.Contains(v.Sym, "SkipDir") && x.Get("dir") != "" {
							return
						}
						at := w.Pos(cb.Pos())
						if o.At != nil {
							at = w.InstrPos(o.At)
						}
						x.E.rep.Violation(next, where, at, "for "+m.name+" the walk is told to stop (or to skip the rest of the dir): the modules after it are not loaded", o.St.Trace(20))
					}
					e := NewEngine(w, r, next, sp)
					e.Run(cb, map[string]*AV{cb.Params[1].Name(): m.info, cb.Params[2].Name(): m.err}, nil)
					r.Engine(e)
				}
			}
		})
	}
	r.Floor(loose, 1)
	r.Floor(next, 2)
}

func constInt2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

func isZero(v ssa.Value) bool { n, ok := constInt(v); return ok && n == 0 }

func returnsError(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

// ---- what a recover does with the failure

func c12Recovers(w *World, r *Report) {
	rule := "a-contained-failure-is-recorded"
	reg := w.registers()
	for _, f := range w.Funcs {
		if !w.InModule(f) || w.inPkg(f, "ticat") {
			continue
		}
		g, ok := w.contained(f)
		if !ok {
			continue
		}
		records := false
		var has func(h *ssa.Function, d int)
		has = func(h *ssa.Function, d int) {
			forEachInstr(h, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if w.onErr(c.Common()) {
						records = true
					}
					if k := c.Common().StaticCallee(); k != nil && d > 0 && w.InModule(k) {
						has(k, d-1)
					}
				}
			})
		}
		has(g, 2)
		if !records && !(reg[f] && w.inPkg(f, "mods/persist/mod_meta")) {
			continue
		}
		where := w.FuncKey(f)
		sp := &Spec{Name: rule}
		sp.Event = func(c *ssa.CallCommon) bool { return w.onErr(c) }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
				return &Action{Alts: []Alt{
					{Results: []*AV{avNonNil("@failure")}, Apply: func(x *Ctx) { x.Set("caught", "1") }, Note: "the loading failed"},
				}}
			}
			if w.onErr(c) {
				if args[1].K == kSym && args[1].Sym == "@failure" {
					x.Set("recorded", "1")
				}
				return &Action{Opaque: true}
			}
			return nil
		}
		some := false
		var switches map[string]bool
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			if o.St.auto["caught"] == "" {
				// left to go on: only when recovering is switched off
				off := map[string]bool{}
				for k, fct := range o.St.facts {
					if (strings.HasPrefix(k, "@sw:") || strings.HasPrefix(k, "@env:")) && fct.Eq == "false" && (switches == nil || switches[k]) {
						off[k] = true
					}
				}
				switches = off
				if len(off) == 0 {
					r.Violation(rule, where, w.Pos(g.Pos()), "the failure of a module is not caught on this path although recovering is not switched off", o.St.Trace(20))
				}
				return
			}
			if o.St.auto["recorded"] == "" {
				r.Violation(rule, where, w.Pos(g.Pos()), "the failure of a module is swallowed: it is not recorded with what was recovered", o.St.Trace(20))
				return
			}
			some = true
			r.Ok(rule, where, w.Pos(g.Pos()), "")
		}
		e := NewEngine(w, r, rule, sp)
		ps, fv := map[string]*AV{}, map[string]*AV{}
		for _, p := range g.Params {
			if isBool(p.Type()) {
				ps[p.Name()] = avSym("@sw:" + p.Name())
			}
		}
		for _, p := range g.FreeVars {
			if isBool(p.Type()) {
				fv[p.Name()] = avSym("@sw:" + p.Name())
			} else if isBool(deref(p.Type())) {
				fv[p.Name()] = &AV{K: kAddr, Sym: "@sw:" + p.Name()}
			}
		}
		e.Run(g, ps, fv)
		r.Engine(e)
		if !some {
			r.Violation(rule, where, w.Pos(g.Pos()), "no path of the handler records the failure of a module", nil)
		}
	}
	r.Floor(rule, 1)
}

// ---- recorded failures are kept

func c12Records(w *World, r *Report) {
	rule := "every-recorded-failure-is-kept"
	isList := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(deref(s.Elem())) != nil && w.isNamed(deref(s.Elem()), "core/model", "TolerableErr")
	}
	isMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		if isList(m.Elem()) {
			return true
		}
		n, ok := m.Elem().Underlying().(*types.Map)
		return ok && isList(n.Elem())
	}
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !recvIs(w, f, "TolerableErrs") || len(f.Params) < 2 {
			continue
		}
		takes := false
		for _, p := range f.Params[1:] {
			if _, ok := p.Type().Underlying().(*types.Interface); ok {
				takes = true
			}
		}
		if !takes || f.Signature.Results().Len() != 0 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		where := w.FuncKey(f)
		sp := &Spec{Name: rule, MaxDisj: 24}
		sp.Event = func(c *ssa.CallCommon) bool { return false }
		sp.Inline = func(g *ssa.Function) bool { return recvIs(w, g, "TolerableErrs") }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			switch v := v.(type) {
			case *ssa.Lookup:
				if !isMap(v.X.Type()) {
					return nil
				}
				m, k := x.Val(v.X), x.Val(v.Index)
				n := "@at(" + m.Key() + "," + k.Key() + ")"
				if m.K == kUnknown {
					return nil
				}
				if v.CommaOk {
					return avTuple(avSym(n), avSym(n+":ok"))
				}
				return avSym(n)
			case *ssa.MakeMap:
				return avNonNil("@newmap")
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" && isList(c.Args[0].Type()) {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@more(" + args[0].Key() + ")")}}}}
			}
			return nil
		}
		put := func(x *Ctx, slot string, v *AV, old *AV) {
			// v is what the slot held with one more
			if v.K == kSym && v.Sym == "@more("+old.Key()+")" {
				x.Set("kept", "1")
				return
			}
			if v.K == kSym && strings.HasPrefix(v.Sym, "@more(") && x.St.IsNil(old) == "true" {
				x.Set("kept", "1")
				return
			}
			x.Report(where+" "+slot, "what is put there is not the old list with the failure added: failures are lost")
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				if isList(deref(in.Addr.Type())) {
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						put(x, fieldName(fa.X.Type(), fa.Field), x.Val(in.Val), x.E.load(x.St, x.Val(in.Addr), deref(in.Addr.Type()), nil))
					}
				}
			case *ssa.MapUpdate:
				m, k, v := x.Val(in.Map), x.Val(in.Key), x.Val(in.Value)
				if isList(in.Value.Type()) {
					put(x, "list", v, avSym("@at("+m.Key()+","+k.Key()+")"))
					if m.Sym == "@newmap" && x.Get("held") == "" {
						x.Set("loose", "1")
					}
				} else if isMap(in.Map.Type()) {
					n := "@at(" + m.Key() + "," + k.Key() + ")"
					if x.St.IsNil(avSym(n)) != "true" && x.Fact(n+":ok") != "false" {
						x.Report(where+" map", "the failures of a source are replaced by an empty list")
					}
					if v.Sym == "@newmap" {
						x.Set("held", "1")
					}
				}
			}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			if o.St.auto["kept"] == "" || (o.St.auto["loose"] != "" && o.St.auto["held"] == "") {
				r.Violation(rule, where, w.Pos(f.Pos()), "on this path the failure is put into no list which is kept", o.St.Trace(20))
			}
			r.Ok(rule, where, w.Pos(f.Pos()), "")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}

// ---- and shown

func c12Prints(w *World, r *Report) {
	rule := "every-recorded-failure-is-shown"
	t := w.NamedOpt("core/model", "TolerableErrs")
	if t == nil {
		return
	}
	st := t.Underlying().(*types.Struct)
	prints := w.Relevant(func(c *ssa.CallCommon) bool {
		return c.IsInvoke() && (c.Method.Name() == "Print" || c.Method.Name() == "Error") && strings.HasSuffix(c.Value.Type().String(), ".Screen")
	})
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.inPkg(f, "cli/display") || !prints[f] {
			continue
		}
		var errs *ssa.Parameter
		for _, p := range f.Params {
			if w.isPtrTo(p.Type(), "core/model", "TolerableErrs") {
				errs = p
			}
		}
		if errs == nil {
			continue
		}
		if len(w.callerFns()[f]) == 0 {
			continue
		}
		where := w.FuncKey(f)
		// where each field is used
		fields := map[string]map[*ssa.BasicBlock]bool{}
		whole := map[*ssa.BasicBlock]bool{}
		for _, ref := range *errs.Referrers() {
			switch ref := ref.(type) {
			case *ssa.FieldAddr:
				n := fieldName(ref.X.Type(), ref.Field)
				if fields[n] == nil {
					fields[n] = map[*ssa.BasicBlock]bool{}
				}
				for _, u := range *ref.Referrers() {
					if v, ok := u.(ssa.Value); ok {
						for _, b := range usedAsList(v) {
							fields[n][b] = true
						}
					}
				}
			case ssa.CallInstruction:
				whole[ref.Block()] = true
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok {
				if _, ok := st.Field(i).Type().Underlying().(*types.Map); !ok {
					continue
				}
			}
			at := map[*ssa.BasicBlock]bool{}
			for b := range fields[n] {
				at[b] = true
			}
			for b := range whole {
				at[b] = true
			}
			// every return lies behind it
			if b := returnsAvoiding(f, at); b != nil {
				r.Violation(rule, where+" "+n, w.Pos(f.Pos()), "the function may return without going through the failures in "+n, nil)
			}
			r.Ok(rule, where+" "+n, w.Pos(f.Pos()), "")
		}
		// each turn of a loop prints or goes through a list of its own
		var heads []*ssa.BasicBlock
		heads = append(heads, f.Blocks...)
		for _, g := range collectors(w, f) {
			heads = append(heads, g.Blocks...)
		}
		for _, h := range heads {
			where := w.FuncKey(h.Parent())
			lb := loopBlocks(h)
			if lb == nil {
				continue
			}
			good := map[*ssa.BasicBlock]bool{}
			for b := range lb {
				if b != h && loopBlocks(b) != nil {
					good[b] = true
				}
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						// kept for a loop of its own
						if bi, isB := c.Common().Value.(*ssa.Builtin); isB && bi.Name() == "append" {
							good[b] = true
						}
						for _, g := range calleesOf(c.Common()) {
							if prints[g] && c.Common().Signature().Results().Len() == 0 {
								good[b] = true
							}
						}
						if c.Common().IsInvoke() && strings.HasSuffix(c.Common().Value.Type().String(), ".Screen") {
							good[b] = true
						}
					}
				}
			}
			if good[h] {
				continue
			}
			// loops over what the failures hold only
			seen := map[*ssa.BasicBlock]bool{}
			bad := false
			var dfs func(b *ssa.BasicBlock)
			dfs = func(b *ssa.BasicBlock) {
				for _, s := range b.Succs {
					if s == h {
						bad = true
						continue
					}
					if !lb[s] || good[s] || seen[s] {
						continue
					}
					seen[s] = true
					dfs(s)
				}
			}
			if !loopOverFailures(w, h) {
				continue
			}
			for _, s := range h.Succs {
				if lb[s] && !good[s] && s != h {
					dfs(s)
				}
			}
			// leaving the loop before its end
			for b := range lb {
				if b == h {
					continue
				}
				for _, s := range b.Succs {
					if !lb[s] && len(s.Instrs) > 0 {
						if _, isP := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !isP && !headLike(h, b) {
							bad = true
						}
					}
				}
			}
			key := where + " loop"
			if bad {
				r.Violation(rule, key, w.InstrPos(h.Instrs[0]), "a turn of this loop over the recorded failures prints nothing (or ends the loop)", nil)
			}
			r.Ok(rule, key, w.InstrPos(h.Instrs[0]), "")
		}
	}
	// and the executor shows them before it runs anything
	for _, f := range w.Funcs {
		if !w.InModule(f) || !recvIs2(w, f, "core/execute", "Executor") || f.Parent() != nil {
			continue
		}
		shows, runs := map[*ssa.BasicBlock]bool{}, []ssa.Instruction(nil)
		isShow := func(c *ssa.CallCommon) bool {
			g := c.StaticCallee()
			if g == nil || !prints[g] {
				return false
			}
			for _, p := range g.Params {
				if w.isPtrTo(p.Type(), "core/model", "TolerableErrs") {
					return true
				}
			}
			return false
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && isShow(c.Common()) {
				shows[in.Block()] = true
			}
		})
		if len(shows) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && recvIs2(w, g, "core/execute", "Executor") && strings.HasPrefix(strings.ToLower(g.Name()), "execute") {
					runs = append(runs, in)
				}
			}
		})
		for _, in := range runs {
			dom := false
			for b := range shows {
				if b.Dominates(in.Block()) {
					dom = true
				}
			}
			if !dom {
				r.Violation(rule, w.FuncKey(f)+" shows", w.InstrPos(in), "commands are run on a path on which the recorded failures were not shown", nil)
			}
			r.Ok(rule, w.FuncKey(f)+" shows", w.InstrPos(in), "")
		}
	}
	r.Floor(rule, 4)
}

func recvIs2(w *World, f *ssa.Function, pkg, typ string) bool {
	rv := f.Signature.Recv()
	return rv != nil && (w.isPtrTo(rv.Type(), pkg, typ) || w.isNamed(rv.Type(), pkg, typ))
}

// headLike: b only tests whether the loop goes on
func headLike(h, b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.BinOp, *ssa.If, *ssa.Phi, *ssa.DebugRef, *ssa.Next, *ssa.Extract:
		default:
			return false
		}
	}
	return true
}

func loopOverFailures(w *World, h *ssa.BasicBlock) bool {
	lr := loopRange(h)
	if lr == nil || lr.Over == nil {
		return false
	}
	return holdsFailures(lr.Over.Type()) || listOfFailures(w, lr.Over, map[ssa.Value]bool{})
}

func holdsFailures(t types.Type) bool {
	return strings.Contains(t.String(), "TolerableErr") || strings.Contains(t.String(), "ConflictedWith")
}

// listOfFailures: a list collected in a loop over failures (here or in a helper)
func listOfFailures(w *World, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || !refSlice(v.Type()) {
		return false
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if listOfFailures(w, e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return listOfFailures(w, y.X, seen)
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" {
				return false
			}
			for h := innermostLoop(y.Block()); h != nil; h = outerLoop(h) {
				if lr := loopRange(h); lr != nil && lr.Over != nil && holdsFailures(lr.Over.Type()) {
					return true
				}
			}
			return listOfFailures(w, y.Call.Args[0], seen)
		}
		return collects(w, &y.Call) != nil
	}
	return false
}

// collects: the call of a helper that gives a list made from failures it was given
func collects(w *World, c *ssa.CallCommon) *ssa.Function {
	g := c.StaticCallee()
	if g == nil || !w.inMod[g] || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 || !refSlice(g.Signature.Results().At(0).Type()) {
		return nil
	}
	for _, a := range c.Args {
		if holdsFailures(a.Type()) {
			return g
		}
	}
	return nil
}

func collectors(w *World, f *ssa.Function) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	forEachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if g := collects(w, &c.Call); g != nil && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
	})
	return
}

// usedAsList: the blocks in which a loaded list is gone through or handed on
func usedAsList(v ssa.Value) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	if v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Range:
			out = append(out, u.Block())
		case *ssa.Call:
			if _, ok := u.Call.Value.(*ssa.Builtin); ok {
				// len of it: the loop over it
				for _, x := range *u.Referrers() {
					if b, ok := x.(*ssa.BinOp); ok {
						if innermostLoop(b.Block()) != nil {
							out = append(out, b.Block())
						}
					}
				}
				continue
			}
			out = append(out, u.Block())
		case *ssa.Phi, *ssa.ChangeType:
			out = append(out, usedAsList(u.(ssa.Value))...)
		}
	}
	return out
}

// returnsAvoiding: a return reachable from the entry without passing a block of at
func returnsAvoiding(f *ssa.Function, at map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var bad *ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] || at[b] || bad != nil {
			return
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
			bad = b
			return
		}
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(f.Blocks[0])
	return bad
}

// ---- a refused module changes nothing

func c12Refused(w *World, r *Report) {
	rule := "a-module-does-not-change-the-command-of-another-source"
	// registering methods; those which may hand out the command which was there
	keeps := map[*ssa.Function]bool{}
	regs := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !recvIs(w, f, "CmdTree") || f.Signature.Results().Len() != 1 || !w.isPtrTo(f.Signature.Results().At(0).Type(), "core/model", "Cmd") {
			continue
		}
		sets, checks := false, false
		forEachInstr(f, func(in ssa.Instruction) {
			if w.cmdFieldStore(in) != nil {
				sets = true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && recvIs(w, g, "CmdTree") && mayPanic(g) {
					checks = true
				}
			}
		})
		if sets {
			regs[f] = true
			if !checks {
				keeps[f] = true
			}
		}
	}
	w.modInit()
	cmdFields := map[string]bool{}
	for _, n := range []string{"Cmd", "CmdTree"} {
		if t := w.NamedOpt("core/model", n); t != nil {
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				cmdFields[st.Field(i).Name()] = true
			}
		}
	}
	mutates := func(g *ssa.Function) bool {
		if !recvIs(w, g, "Cmd") && !recvIs(w, g, "CmdTree") {
			return false
		}
		for f := range w.mods[g] {
			if cmdFields[strings.TrimSuffix(f, "%len")] || f == "names%len" || f == "orderedList" {
				return true
			}
		}
		return false
	}
	rel := w.Relevant(func(c *ssa.CallCommon) bool { g := c.StaticCallee(); return g != nil && regs[g] })
	judge := func(root *ssa.Function, rep *Report) bool {
		reached := false
		sp := &Spec{Name: rule, MaxDisj: 24}
		sp.Event = func(c *ssa.CallCommon) bool {
			g := c.StaticCallee()
			return g != nil && (regs[g] || mutates(g))
		}
		sp.Within = func(f *ssa.Function) bool { return w.inPkg(f, "mods/persist/mod_meta") }
		where := w.FuncKey(root)
		sp.Split = func(x *Ctx, v ssa.Value) []Alt {
			b, ok := v.(*ssa.BinOp)
			if !ok || (b.Op.String() != "==" && b.Op.String() != "!=") {
				return nil
			}
			l, rr := x.Val(b.X), x.Val(b.Y)
			eq := b.Op.String() == "=="
			if isStringT(b.X.Type()) && (l.K == kSym && l.Sym == "@source" || rr.K == kSym && rr.Sym == "@source") {
				return []Alt{
					{Results: []*AV{avBool(eq)}, Apply: func(x *Ctx) { x.Set("same", "1") }, Note: "the sources are the same"},
					{Results: []*AV{avBool(!eq)}, Note: "the sources differ"},
				}
			}
			if l.K == kSym && rr.K == kSym && (l.Sym == "@old" || rr.Sym == "@old") {
				if l.Sym == rr.Sym {
					return []Alt{{Results: []*AV{avBool(eq)}}}
				}
				if l.Sym == "@new" || rr.Sym == "@new" {
					return []Alt{{Results: []*AV{avBool(!eq)}}}
				}
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if callee == nil {
				return nil
			}
			one := func(a *AV) *Action { return &Action{Alts: []Alt{{Results: []*AV{a}}}} }
			if recvIs(w, callee, "CmdTree") {
				rs := callee.Signature.Results()
				switch {
				case regs[callee]:
					reached = true
					alts := []Alt{{Results: []*AV{avNonNil("@new")}, Apply: func(x *Ctx) { x.Set("done", "new") }, Note: "the command is registered"}}
					if keeps[callee] {
						alts = append(alts, Alt{Results: []*AV{avNonNil("@old")}, Apply: func(x *Ctx) {
							x.Set("done", "old")
							x.St.facts["@old"] = Fact{Ne: []string{"nil"}}
						}, Note: "the command which is there is handed out"})
					}
					return &Action{Alts: alts}
				case callee.Name() == "Source" || rs.Len() == 1 && isStringT(rs.At(0).Type()) && callee.Signature.Params().Len() == 0 && loadsField(callee, "source"):
					return one(avSym("@source"))
				case rs.Len() == 1 && w.isPtrTo(rs.At(0).Type(), "core/model", "Cmd") && !mutates(callee) && callee.Signature.Params().Len() == 0:
					if x.Get("done") == "new" {
						return one(avNonNil("@new"))
					}
					return one(avSym("@old"))
				case callee.Signature.Params().Len() == 1 && rs.Len() == 1 && rs.At(0).Type().String() == "bool" && loadsField(callee, "source"):
					return &Action{Alts: []Alt{
						{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("same", "1") }},
						{Results: []*AV{avFalse}}}}
				}
			}
			if recvIs(w, callee, "Cmd") && callee.Signature.Params().Len() == 0 && callee.Signature.Results().Len() == 1 && callee.Signature.Results().At(0).Type().String() == "bool" && args[0].K == kSym && args[0].Sym == "@old" && strings.Contains(callee.Name(), "Empty") {
				return &Action{Alts: []Alt{
					{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("blank", "1") }, Note: "it is totally empty"},
					{Results: []*AV{avFalse}, Note: "it is not empty"}}}
			}
			if mutates(callee) {
				if strings.HasPrefix(callee.Name(), "GetOrAdd") {
					return nil
				}
				switch x.Get("done") {
				case "":
					if recvIs(w, callee, "Cmd") || !strings.HasPrefix(callee.Name(), "AddSub") {
						x.Report(where+" early", "%s changes a command before it is known whether the module may have it", w.FuncKey(callee))
					}
				case "old":
					if x.Get("same") == "" && x.Get("blank") == "" {
						x.Report(where+" old", "%s changes a command which was there before and may belong to another source", w.FuncKey(callee))
					}
				}
				x.E.rep.Ok(rule, where+" "+callee.Name(), w.InstrPos(x.In), "")
				if callee.Signature.Results().Len() == 1 {
					return one(args[0])
				}
				return &Action{Opaque: true, Pure: true}
			}
			return nil
		}
		e := NewEngine(w, rep, rule, sp)
		e.Run(root, nil, nil)
		rep.Engine(e)
		return reached
	}
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.inPkg(f, "mods/persist/mod_meta") || !rel[f] {
			continue
		}
		direct := false
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && mutates(g) {
					direct = true
				}
			}
		})
		// the function which registers and configures
		if direct {
			w.climb(r, f, 2, judge)
		}
	}
	r.Floor(rule, 5)
}

func loadsField(f *ssa.Function, name string) bool {
	hit := false
	forEachInstr(f, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == name {
			hit = true
		}
	})
	return hit
}

func mayPanic(f *ssa.Function) bool {
	hit := false
	forEachInstr(f, func(in ssa.Instruction) {
		if p, ok := in.(*ssa.Panic); ok && p.Pos().IsValid() {
			hit = true
		}
	})
	return hit
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
