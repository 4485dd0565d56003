package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: a flow stops at its first failure and the failure reaches the process status.

// outcomeCall classifies calls whose result is "the command / flow succeeded".
func (w *World) outcomeCall(c *ssa.CallCommon) (string, bool) {
	switch {
	case w.callsMethod(c, "core/model", "Cmd", "Execute"):
		return "Cmd.Execute", true
	case w.callsExecutorExecute(c):
		return "Executor.Execute", true
	case w.dynCallOf(c, "core/model", "NormalCmd"), w.dynCallOf(c, "core/model", "PowerCmd"):
		return "command body", true
	case fullName(c) == "(*os/exec.Cmd).Run", fullName(c) == "(*os/exec.Cmd).Wait":
		return "script process", true
	}
	return "", false
}

// okAlts: a call with a bool outcome (last result), idx result symbolic.
func boolAlts(x *Ctx, c *ssa.CallCommon, okApply, failApply, panicApply func(*Ctx), name string) *Action {
	n := c.Signature().Results().Len()
	mk := func(b bool) []*AV {
		var rs []*AV
		for i := 0; i < n-1; i++ {
			rs = append(rs, label(fmt.Sprintf("res:%s:%d", symSan.Replace(name), i)))
		}
		return append(rs, avBool(b))
	}
	return &Action{Alts: []Alt{
		{Results: mk(false), Apply: failApply, Note: name + " reports failure"},
		{Panics: true, Apply: panicApply, Note: name + " panics"},
		{Results: mk(true), Apply: okApply},
	}}
}

func registerFlowProps() {
	register(&Prop{
		ID: "C01", Title: "A flow stops at its first failure and the failure reaches the process status",
		Explain: "Path-sensitive typestate over the executor, the command runner, the process entry and every builtin that runs flows: on every abstract path, after a failed outcome no further command may start in the same run and the failure must be returned, re-panicked or turned into a non-zero exit.",
		Run:     runC01,
	})
}

func init() { registerFlowProps() }

func runC01(w *World, r *Report) {
	c01Executor(w, r)
	c01CmdExecute(w, r)
	c01Process(w, r)
	c01Builtins(w, r)
}

func c01Executor(w *World, r *Report) {
	rule := "stop-at-first-failure"
	root := w.Method("core/execute", "Executor", "Run")
	isEv := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "Execute") }
	sites := map[string]string{}
	sp := &Spec{Name: rule, Event: isEv}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if isEv(c) {
			k := w.FuncKey(x.Fn)
			sites[k] = w.InstrPos(x.In)
			if f := x.Get("failed"); f != "" {
				x.Report(k, "a command can be started after a command of the same run has failed (%s)", f)
			}
			return boolAlts(x, c, nil,
				func(x *Ctx) { x.Set("failed", "returned failure") },
				func(x *Ctx) { x.Set("failed", "panicked") }, "Cmd.Execute")
		}
		if w.callsMethod(c, "core/model", "Blender", "Invoke") {
			return &Action{Opaque: true}
		}
		// nested runs are judged at their own command
		if w.callsExecutorExecute(c) {
			return &Action{Opaque: true}
		}
		return nil
	}
	exits := 0
	sp.Exit = func(x *Ctx, o *Outcome) {
		exits++
		if x.Get("failed") == "" {
			return
		}
		if o.Kind == exReturn {
			i := lastBoolIdx(root.Signature)
			if x.St.Eval(o.Results[i]) != "false" {
				x.Report(w.FuncKey(root)+" return", "the run can report success although a command failed (%s)", x.Get("failed"))
			}
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	for k, p := range sites {
		r.Ok(rule, k, p, "command start reached from Executor.Run; judged on every path")
	}
	r.Ok(rule, "Executor.Run exits", w.Pos(root.Pos()), fmt.Sprintf("%d abstract exits", exits))
	r.Floor(rule, 2)
	// the interface entry must return the inner result unchanged
	rule2 := "executor-entry-returns-outcome"
	ent := w.Method("core/execute", "Executor", "Execute")
	e2 := NewEngine(w, r, rule2, &Spec{Name: rule2, Event: isEv, Call: sp.Call, Exit: func(x *Ctx, o *Outcome) {
		if x.Get("failed") != "" && o.Kind == exReturn && x.St.Eval(o.Results[0]) != "false" {
			x.Report(w.FuncKey(ent)+" return", "the executor can report success although a command failed (%s)", x.Get("failed"))
		}
		if x.Get("failed") == "" && o.Kind == exReturn {
			r.Ok(rule2, w.FuncKey(ent), w.Pos(ent.Pos()), "")
		}
	}})
	e2.Run(ent, nil, nil)
	r.Engine(e2)
	r.Floor(rule2, 1)
}

func c01CmdExecute(w *World, r *Report) {
	root := w.Method("core/model", "Cmd", "Execute")
	isEv := func(c *ssa.CallCommon) bool {
		k, ok := w.outcomeCall(c)
		return ok && k != "Cmd.Execute"
	}
	for _, allow := range []bool{false, true} {
		rule := "command-failure-is-reported"
		if allow {
			rule = "allowed-error-continues-after-the-command"
		}
		sites := map[string]string{}
		sp := &Spec{Name: rule, Event: isEv}
		if allow {
			sp.Track = func(sym string) bool { return sym == "p:currCmdIdx" || strings.HasPrefix(sym, "@res:") }
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			// blender commands run while a flow is assembled; they are judged on their own
			if w.callsMethod(c, "core/model", "Blender", "Invoke") {
				return &Action{Opaque: true}
			}
			k, ok := w.outcomeCall(c)
			if !ok {
				return nil
			}
			if k == "Cmd.Execute" {
				return &Action{Inline: true}
			}
			key := w.FuncKey(x.Fn) + ": " + k
			sites[key] = w.InstrPos(x.In)
			if f := x.Get("failed"); f != "" && !(allow && k == "script process") {
				x.Report(key, "the command goes on with %s after its %s", k, f)
			}
			fail := func(x *Ctx) { x.Set("failed", k+" failed") }
			pan := func(x *Ctx) { x.Set("failed", k+" panicked") }
			if k == "script process" {
				return &Action{Alts: []Alt{
					{Results: []*AV{avNonNil("@runerr")}, Apply: fail, Note: k + " fails"},
					{Results: []*AV{avNil}},
				}}
			}
			return boolAlts(x, c, nil, fail, pan, k)
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if x.Get("failed") == "" || x.Get("abort") != "" {
				return
			}
			where := w.FuncKey(root)
			if o.Kind == exReturn && strings.HasSuffix(x.Get("failed"), " panicked") {
				known := false
				for k, f := range x.St.facts {
					if strings.HasPrefix(k, "@abort") && !strings.HasPrefix(k, "@abortval") && (f.Eq == "false" || hasNe(f, "true")) {
						known = true
					}
				}
				if !known {
					x.Report(where+" abort", "a panic of the command's body can be taken as a tolerated failure although it is the user's abort")
				}
			}
			if o.Kind == exReturn {
				if !allow && x.St.Eval(o.Results[1]) != "false" {
					x.Report(where+" return", "a command can report success although its %s", x.Get("failed"))
				}
				if allow {
					if x.St.Eval(o.Results[1]) != "true" {
						x.Report(where+" allowed", "a command run with allowed errors can still be reported as failed after its %s", x.Get("failed"))
					}
					a := o.Results[0]
					// a tail-mode command consumes the whole flow: nothing is left to go on with
					if x.Get("consumed") != "" {
						return
					}
					if !(a.K == kSym && (a.Sym == "p:currCmdIdx" || strings.HasPrefix(a.Sym, "@res:"))) {
						x.Report(where+" allowed-index", "after an allowed error (%s) the flow does not continue at the failed command's position (index value %s)", x.Get("failed"), a.Key())
					}
				}
			}
			if o.Kind == exPanic && allow {
				isAbort := false
				for k, f := range x.St.facts {
					if strings.HasPrefix(k, "@abort") && f.Eq == "true" {
						isAbort = true
					}
				}
				if !isAbort {
					x.Report(where+" allowed-panic", "a panic of the command's body passes through although errors are allowed (%s)", x.Get("failed"))
				}
			}
		}
		// a failure which is the user's abort is recognised by type
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if ta, ok := v.(*ssa.TypeAssert); ok && ta.CommaOk && w.isNamed(ta.AssertedType, "core/model", "AbortByUserErr") {
				return avTuple(avSym("@abortval"), avSym("@abort"))
			}
			return nil
		}
		if allow {
			sp.Instr = func(x *Ctx, in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && w.isField(st.Addr, "core/model", "ParsedCmds", "Cmds") {
					v := x.Val(st.Val)
					if v.K == kConst && v.C == "nil" {
						x.Set("consumed", "1")
					} else {
						x.Set("consumed", "")
					}
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, map[string]*AV{"allowError": avBool(allow)}, nil)
		r.Engine(e)
		for k, p := range sites {
			r.Ok(rule, k, p, "")
		}
		r.Floor(rule, 4)
	}
}

func c01Process(w *World, r *Report) {
	rule := "failure-exits-nonzero"
	root := w.Method("ticat", "TiCat", "RunCli")
	isRun := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/execute", "Executor", "Run") }
	isEv := func(c *ssa.CallCommon) bool { return isRun(c) || w.callsExecutorExecute(c) }
	sp := &Spec{Name: rule, Event: isEv}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if isRun(c) {
			r.Ok(rule, w.FuncKey(x.Fn)+": Executor.Run", w.InstrPos(x.In), "")
			return boolAlts(x, c, func(x *Ctx) { x.Set("ran", "1") }, func(x *Ctx) { x.Set("failed", "run failed"); x.Set("ran", "1") },
				func(x *Ctx) { x.Set("failed", "run panicked"); x.Set("ran", "1") }, "Executor.Run")
		}
		if w.callsExecutorExecute(c) {
			return boolAlts(x, c, nil, func(x *Ctx) { x.Set("failed", "exit hook failed") }, func(x *Ctx) { x.Set("failed", "exit hook panicked") }, "exit hook")
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		f := x.Get("failed")
		if f == "" {
			if o.Kind == exExit && o.Val.Key() != "=i:0" {
				x.Report(w.FuncKey(root)+" exit", "the process exits with an error status although nothing failed")
			}
			return
		}
		switch o.Kind {
		case exReturn:
			x.Report(w.FuncKey(root)+" return", "the process ends normally although its %s", f)
		case exExit:
			if !(o.Val.K == kConst && o.Val.C != "i:0") {
				x.Report(w.FuncKey(root)+" exit", "the exit status is not a non-zero constant although its %s", f)
			}
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	r.Ok(rule, "process exits", w.Pos(root.Pos()), fmt.Sprintf("%d abstract exits", e.Exits))
	r.Floor(rule, 2)
}

// builtins (and everything else shaped like a command body) that run flows
func c01Builtins(w *World, r *Report) {
	rule := "nested-failure-propagates"
	isEv := func(c *ssa.CallCommon) bool { return w.callsExecutorExecute(c) }
	within := func(f *ssa.Function) bool {
		return !w.inPkg(f, "core/model") && !w.inPkg(f, "core/execute") && !w.inPkg(f, "cli/display")
	}
	rel := w.RelevantIn(isEv, within)
	for _, f := range w.Funcs {
		if !rel[f] || !w.isCmdFunc(f) {
			continue
		}
		root := f
		sp := &Spec{Name: rule, Event: isEv, Within: within}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			// the interactive shell reports each line's failure to the user and goes on
			if w.callsMethod(c, "mods/builtin", "", "InteractiveMode") {
				return &Action{Opaque: true}
			}
			if isEv(c) {
				r.Ok(rule, w.FuncKey(x.Fn), w.InstrPos(x.In), "runs a flow on behalf of "+w.FuncKey(root))
				if f := x.Get("failed"); f != "" {
					x.Report(w.FuncKey(root), "runs another flow after %s", f)
				}
				return boolAlts(x, c, nil, func(x *Ctx) { x.Set("failed", "a nested flow failed") }, nil, "Executor.Execute")
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if x.Get("failed") == "" || o.Kind != exReturn {
				return
			}
			if x.St.Eval(o.Results[lastBoolIdx(root.Signature)]) != "false" {
				x.Report(w.FuncKey(root), "reports success although %s", x.Get("failed"))
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}
