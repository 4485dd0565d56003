package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// c02 additions: the walk of the checks ends only at the last command, what was
// found stays found, what counts as written is what commands declare, and every
// dependency of a command is collected.

// c02WholeWalk: the loop that holds the judging call goes on to the last command
func c02WholeWalk(w *World, r *Report, worker *ssa.Function, judges func(ssa.Instruction) bool, what string) {
	rule := "checks-go-on-to-the-last-command"
	forEachLoop(worker, func(h *ssa.BasicBlock) {
		lr := loopRange(h)
		if lr == nil || lr.IsMap || !w.isFlowCmdsVal(lr.Over) {
			return
		}
		holds := false
		for b := range loopBlocks(h) {
			for _, in := range b.Instrs {
				holds = holds || judges(in)
			}
		}
		if !holds {
			return
		}
		k := w.FuncKey(worker)
		if at := leavesEarly(h); at != nil {
			r.Violation(rule, k, w.InstrPos(at), "the "+what+" of the commands after some are not judged: the walk over the flow can end before its last command", nil)
		} else {
			r.Ok(rule, k, w.Pos(worker.Pos()), what)
		}
	})
}

func c02Found(w *World, r *Report) {
	rule := "what-was-found-stays-found"
	isResults := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && w.isNamed(s.Elem(), "core/model", "EnvOpsCheckResult")
	}
	for f := range w.closureOf(w.Fn("core/model", "CheckEnvOps")) {
		if !w.inPkg(f, "core/model") {
			continue
		}
		k := w.FuncKey(f)
		forEachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || !isResults(st.Val.Type()) {
				return
			}
			p, ok := st.Addr.(*ssa.Parameter)
			if !ok {
				return
			}
			c := (*ssa.Call)(nil)
			if vi, is := st.Val.(ssa.Instruction); is {
				c = isAppend(vi)
			}
			if c == nil {
				if phi, is := st.Val.(*ssa.Phi); is {
					_ = phi
					return // built elsewhere: not judged
				}
				r.Violation(rule, k, w.InstrPos(in), "the problems found so far are replaced, not added to: the ones of earlier commands are lost", nil)
				return
			}
			base := c.Call.Args[0]
			u, isLoad := base.(*ssa.UnOp)
			if isLoad && u.Op == token.MUL && u.X == ssa.Value(p) {
				r.Ok(rule, k, w.InstrPos(in), "added to")
				return
			}
			if cst, is := base.(*ssa.Const); is && cst.Value == nil {
				r.Violation(rule, k, w.InstrPos(in), "the problems found so far are replaced, not added to: the ones of earlier commands are lost", nil)
			}
		})
	}

	// only env commands which ran, and the declared operations, settle a key
	rule = "a-key-counts-as-written-only-by-declaration"
	settles := map[*ssa.Function]bool{}
	for _, m := range []string{"SetKeyWritten", "RemoveKeyStat", "Reset"} {
		if g := w.MethodOpt("core/model", "EnvOpsChecker", m); g != nil {
			settles[g] = true
		}
	}
	for f := range w.closureOf(w.Fn("core/model", "CheckEnvOps")) {
		if settles[f] || !w.inPkg(f, "core/model") {
			continue
		}
		k := w.FuncKey(f)
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil || !settles[c.Common().StaticCallee()] {
				return
			}
			r.Violation(rule, k, w.InstrPos(in), "the check itself settles a key ("+c.Common().StaticCallee().Name()+"): a read of it before it is written goes unreported", nil)
		})
	}
	r.Ok(rule, "core/model.CheckEnvOps", w.Pos(w.Fn("core/model", "CheckEnvOps").Pos()), "no call of the checker's own setters in the walk")
}

// c02Collect: every dependency of a command gets into the result
func c02Collect(w *World, r *Report) {
	rule := "every-dependency-is-collected"
	isDeps := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && w.isNamed(s.Elem(), "core/model", "Depend")
	}
	n := 0
	for f := range w.closureOf(w.Fn("core/model", "CollectDepends")) {
		if !w.inPkg(f, "core/model") || f.Signature.Recv() != nil && w.isPtrTo(f.Signature.Recv().Type(), "core/model", "Cmd") {
			continue
		}
		for _, t := range turnsOver(f, isDeps) {
			t := t
			in := loopBlocks(t.h)
			puts := false
			for b := range in {
				for _, i := range b.Instrs {
					if _, ok := i.(*ssa.MapUpdate); ok {
						puts = true
					}
				}
			}
			if !puts {
				continue
			}
			n++
			f := f
			k := w.FuncKey(f)
			r.Funcs[k] = true
			if at := leavesEarly(t.h); at != nil {
				r.Violation(rule, k+" loop", w.InstrPos(at), "the dependencies of a command after some are not collected", nil)
			}
			sp := &Spec{Name: rule, MaxDisj: 40}
			sp.Inline = func(g *ssa.Function) bool { return false }
			sp.Instr = func(x *Ctx, i ssa.Instruction) {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok || !in[i.Block()] {
					return
				}
				m, ok := mu.Map.Type().Underlying().(*types.Map)
				if ok && (w.isNamed(m.Elem(), "core/model", "DependInfo") || isMapOf(w, m.Elem(), "DependInfo")) {
					x.Set("put", "1")
				}
			}
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if callee == nil || !w.InModule(callee) {
					return nil
				}
				// a helper which may put it: not followed
				found := false
				for g := range w.closureOf(callee) {
					if g.Name() == "GetDepends" || !w.inPkg(g, "core/model") {
						continue
					}
					forEachInstr(g, func(i ssa.Instruction) {
						if mu, ok := i.(*ssa.MapUpdate); ok {
							if m, ok := mu.Map.Type().Underlying().(*types.Map); ok && (w.isNamed(m.Elem(), "core/model", "DependInfo") || isMapOf(w, m.Elem(), "DependInfo")) {
								found = true
							}
						}
					})
				}
				if found {
					x.Set("put", "1")
				}
				return nil
			}
			sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
				if to != t.h {
					return
				}
				if x.Get("put") == "" {
					x.Report(k, "a dependency of a command can be left out of what is collected")
				}
				x.Set("put", "")
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(f, nil, nil)
			r.Engine(e)
			r.Ok(rule, k, w.Pos(f.Pos()), "each turn puts the dependency into the result")
		}
	}
	_ = n
}

func isMapOf(w *World, t types.Type, elem string) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && w.isNamed(m.Elem(), "core/model", elem)
}
