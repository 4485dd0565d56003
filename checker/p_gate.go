package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: pre-execution checks gate the first command.

func init() {
	register(&Prop{
		ID: "C02", Title: "No command starts before the whole line passed its checks",
		Explain: "Path-sensitive typestate over the executor: each path on which a command starts must carry the passed parse, env and os-command checks or one of the declared exemptions; exempted commands are proved to consume the rest of the flow; the checks themselves are shown to visit every command and every sub-flow.",
		Run:     runC02,
	})
}

func runC02(w *World, r *Report) {
	consumers := c02Consumers(w, r)
	c02Gates(w, r, consumers)
	c02ParseResult(w, r)
	c02Coverage(w, r)
	c02Found(w, r)
	c02Collect(w, r)
	c02EnvVerdict(w, r)
	c02TailMode(w, r)
}

// functions a call to Cmd.IsTheSameFunc compares with
func (w *World) sameFuncSet(c *ssa.CallCommon) []*ssa.Function {
	a := c.Args[len(c.Args)-1]
	fs := funcsOf(a, 0)
	if len(fs) == 0 {
		if u, ok := a.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				fs = elemFuncs(ia.X, 0)
			}
		}
		if e, ok := a.(*ssa.Extract); ok {
			if n, ok := e.Tuple.(*ssa.Next); ok {
				if rg, ok := n.Iter.(*ssa.Range); ok {
					fs = elemFuncs(rg.X, 0)
				}
			}
		}
	}
	return fs
}

// isFlowCmds: address of ParsedCmds.Cmds
func (w *World) isFlowCmds(v ssa.Value) bool { return w.isField(v, "core/model", "ParsedCmds", "Cmds") }

// consumesFlow decides whether a power command, when it reports success, has
// taken the whole remaining flow (or is in a tail-mode call, which the command
// runner ends), so that nothing behind it starts.
func consumesFlow(w *World, r *Report, rule string, f *ssa.Function) (bool, string) {
	if !w.sigIs(f, "core/model", "PowerCmd") {
		return false, "it is not a command that can take over the flow"
	}
	isEv := func(c *ssa.CallCommon) bool { return w.callsExecutorExecute(c) }
	storesCmds := map[*ssa.Function]bool{}
	for g := range w.inMod {
		if len(g.Blocks) == 0 {
			continue
		}
		forEachInstr(g, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && w.isFlowCmds(s.Addr) {
				storesCmds[g] = true
			}
		})
	}
	reach := w.reachSet(storesCmds, func(g *ssa.Function) bool { return w.inPkg(g, "mods/builtin") })
	ok, why := true, ""
	sp := &Spec{Name: rule, Event: isEv}
	sp.Inline = func(g *ssa.Function) bool { return w.inPkg(g, "mods/builtin") && reach[g] }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL && w.isField(u.X, "core/model", "ParsedCmds", "TailModeCall") {
			return label("tail")
		}
		return nil
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && w.isFlowCmds(st.Addr) {
			v := x.Val(st.Val)
			if v.K == kConst && v.C == "nil" {
				x.Set("consumed", "1")
			} else {
				x.Set("consumed", "")
			}
		}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || x.St.Eval(o.Results[1]) == "false" {
			return
		}
		if x.Get("consumed") == "" && x.Fact("@tail") != "true" {
			ok = false
			why = "it can return success with the rest of the flow still pending (" + w.InstrPos(x.In) + ")"
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	return ok, why
}

// reachSet: functions (within limits) that reach one of the given functions by static calls.
func (w *World) reachSet(seed map[*ssa.Function]bool, within func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range seed {
		if within(f) {
			out[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range w.inMod {
			if out[f] || len(f.Blocks) == 0 || !within(f) {
				continue
			}
			hit := false
			forEachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range calleesOf(c.Common()) {
						if out[g] {
							hit = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && out[mc.Fn.(*ssa.Function)] {
					hit = true
				}
			})
			if hit {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

func c02Consumers(w *World, r *Report) map[*ssa.Function]bool {
	rule := "exempted-command-consumes-the-flow"
	cands := map[*ssa.Function]string{}
	for _, s := range w.Registrations().Sites {
		if s.Has("SetIgnoreFollowingDeps") {
			if len(s.Funcs) == 0 {
				r.Violation(rule, "registration at "+w.FuncKey(s.Fn)+" "+s.Kind, w.InstrPos(s.In), "a command without a known body is registered as exempt from the os-command check", nil)
			}
			for _, f := range s.Funcs {
				cands[f] = "registered as exempt from the os-command check (" + w.InstrPos(s.In) + ")"
			}
		}
	}
	for f := range w.inMod {
		if !w.inPkg(f, "core/execute") || len(f.Blocks) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && w.callsMethod(c.Common(), "core/model", "Cmd", "IsTheSameFunc") {
				for _, g := range w.sameFuncSet(c.Common()) {
					if cands[g] == "" {
						cands[g] = "listed in " + w.FuncKey(f)
					}
				}
			}
		})
	}
	out := map[*ssa.Function]bool{}
	for f, why := range cands {
		ok, bad := consumesFlow(w, r, rule, f)
		if ok {
			out[f] = true
			r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), why)
		} else if strings.HasPrefix(why, "registered") {
			r.Violation(rule, w.FuncKey(f), w.Pos(f.Pos()), "the command is "+why+" but "+bad, nil)
		}
	}
	r.Floor(rule, 10)
	return out
}

// the element a ParsedCmd value was loaded from is number 0 of the flow
func (w *World) firstElem(a *AV) bool {
	return a != nil && (a.K == kSym || a.K == kAddr) && strings.Contains(a.Sym, "[i:0]")
}

func c02Gates(w *World, r *Report, consumers map[*ssa.Function]bool) {
	gateChecks(w, r, consumers, "checks-gate-the-first-command", "parse", "env", "dep")
}

// gateChecks: no command starts before the given checks passed
func gateChecks(w *World, r *Report, consumers map[*ssa.Function]bool, rule string, checks ...string) {
	asked := map[string]bool{}
	for _, c := range checks {
		asked[c] = true
	}
	root := w.Method("core/execute", "Executor", "Execute")
	isStart := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "Execute") }
	isEv := func(c *ssa.CallCommon) bool {
		return isStart(c) || w.callsMethod(c, "core/model", "Cmd", "IsTheSameFunc") || w.callsMethod(c, "core/model", "Cmd", "ShouldIgnoreFollowingDeps") ||
			isCallTo(w, c, "core/model", "CheckEnvOps") || isCallTo(w, c, "cli/display", "DumpDepends") || isCallTo(w, c, "cli/display", "HandleParseResult")
	}
	within := func(f *ssa.Function) bool { return w.inPkg(f, "core/execute") }
	isGate := func(c *ssa.CallCommon) bool {
		return isCallTo(w, c, "core/model", "CheckEnvOps") || isCallTo(w, c, "cli/display", "DumpDepends") || isCallTo(w, c, "cli/display", "HandleParseResult")
	}
	// functions which start commands and perform no check on the way: calling one is a start
	gated := w.RelevantIn(isGate, within)
	starts := w.RelevantIn(isStart, within)
	starter := func(c *ssa.CallCommon) *ssa.Function {
		f := c.StaticCallee()
		if f != nil && starts[f] && !gated[f] {
			return f
		}
		return nil
	}
	modes := []string{"top-level line", "nested flow"}
	if !asked["env"] {
		modes = append(modes, "bootstrap line")
	}
	for _, mode := range modes {
		mode := mode
		root := root
		if mode == "bootstrap line" {
			root = w.Method("core/execute", "Executor", "Run")
		}
		started := 0
		gates := map[string]int{}
		sp := &Spec{Name: rule, Event: isEv, Within: within}
		judge := func(x *Ctx, what string) {
			for k, f := range x.St.facts {
				if f.Eq == "i:0" && strings.HasSuffix(k, ".Cmds%len") {
					return // nothing to start
				}
			}
			started++
			k := "start of " + what + " in " + mode
			r.Ok(rule, k, w.InstrPos(x.In), "every path carries its passed checks")
			tail := x.Fact("@tail") == "true"
			switch x.Get("parse") {
			case "ok":
			case "bad":
				x.Report(k+": parse", "a command can start although the line has parse errors")
			default:
				if !(x.Get("first") != "" || (tail && x.Fact("@err0") == "nil")) {
					x.Report(k+": parse", "a command can start without the parse result having been checked (and the line does not begin with an exempted command)")
				}
			}
			if mode != "top-level line" || !asked["env"] {
				return
			}
			switch x.Get("env") {
			case "ok":
			case "bad":
				x.Report(k+": env", "a command can start although the env check found problems")
			default:
				if !(x.Get("first") != "" || tail) {
					x.Report(k+": env", "a command can start without the env check (and the line does not begin with an exempted command)")
				}
			}
			switch x.Get("dep") {
			case "ok":
			case "bad":
				x.Report(k+": os-commands", "a command can start although a needed os-command is missing")
			default:
				if x.Fact("@ignoredeps") != "true" && x.Get("first") == "" && !tail {
					x.Report(k+": os-commands", "a command can start without the os-command check (and the line does not begin with an exempted command)")
				}
			}
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				for _, f := range calleesOf(&g.Call) {
					if starts[f] {
						judge(x, "a background command")
					}
				}
			}
		}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return nil
			}
			if w.isField(u.X, "core/model", "ParsedCmds", "TailModeCall") {
				return label("tail")
			}
			if w.isField(u.X, "core/model", "ParseResult", "Error") && w.firstElem(x.Val(u.X)) {
				return label("err0")
			}
			return nil
		}
		first := func(x *Ctx, args []*AV) bool {
			return len(args) > 0 && args[0] != nil && args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@first")
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch {
			case isStart(c) || starter(c) != nil:
				what := "a command"
				if f := starter(c); f != nil {
					what = "commands by " + w.FuncKey(f)
				}
				judge(x, what)
				return &Action{Drop: true}
			case w.callsMethod(c, "core/model", "Blender", "Invoke"):
				return &Action{Opaque: true}
			case w.callsExecutorExecute(c):
				return &Action{Opaque: true}
			case w.callsMethod(c, "core/model", "CliParser", "Parse"):
				// another line
				x.Set("parse", "")
				x.Set("first", "")
				delete(x.St.facts, "@err0")
				return nil
			case w.callsMethod(c, "core/model", "ParsedCmd", "LastCmd"):
				if w.firstElem(args[0]) || w.firstElem(loadedFrom(x, c.Args[0])) {
					return &Action{Alts: []Alt{{Results: []*AV{avNil}}, {Results: []*AV{avNonNil("@first")}}}}
				}
				return &Action{Opaque: true}
			case w.callsMethod(c, "core/model", "Cmd", "IsTheSameFunc"):
				set := w.sameFuncSet(c)
				good := len(set) > 0 && first(x, args)
				for _, f := range set {
					if !consumers[f] {
						good = false
					}
				}
				return &Action{Alts: []Alt{
					{Results: []*AV{avTrue}, Apply: func(x *Ctx) {
						if good {
							x.Set("first", "consumer")
						}
					}},
					{Results: []*AV{avFalse}},
				}}
			case w.callsMethod(c, "core/model", "Cmd", "ShouldIgnoreFollowingDeps"):
				if first(x, args) {
					return &Action{Alts: []Alt{{Results: []*AV{label("ignoredeps")}}}}
				}
				return &Action{Opaque: true}
			case isCallTo(w, c, "cli/display", "HandleParseResult"):
				gates["parse"]++
				return &Action{Alts: []Alt{
					{Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("parse", "bad") }, Note: "the parse check finds errors"},
					{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("parse", "ok") }},
				}}
			case isCallTo(w, c, "cli/display", "DumpDepends"):
				gates["dep"]++
				return &Action{Alts: []Alt{
					{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("dep", "bad") }, Note: "the os-command check finds a missing command"},
					{Results: []*AV{avFalse}, Apply: func(x *Ctx) {
						if x.Get("collected") != "" {
							x.Set("dep", "ok")
						}
					}},
				}}
			case isCallTo(w, c, "core/model", "CollectDepends"):
				x.Set("collected", "1")
				return &Action{Opaque: true, Pure: true}
			case isCallTo(w, c, "core/model", "CheckEnvOps"):
				gates["env"]++
				res := args[len(args)-1]
				if res.K != kAddr {
					return &Action{Opaque: true}
				}
				return &Action{Alts: []Alt{
					{Apply: func(x *Ctx) {
						x.Set("env", "bad")
						x.St.heap[res.Sym] = avNonNil("@envres")
						x.St.facts["@envres%len"] = Fact{Ne: []string{"i:0"}}
					}, Note: "the env check finds problems"},
					{Apply: func(x *Ctx) {
						x.Set("env", "ok")
						x.St.heap[res.Sym] = avNil
					}},
				}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			for _, g := range checks {
				if x.Get(g) == "bad" && x.St.Eval(o.Results[0]) != "false" {
					x.Report(w.FuncKey(root)+" return "+g, "the run can report success although its %s check failed", g)
				}
			}
		}
		// what is not a check or a rewrite of the flow leaves it as it is
		sp.KeepFact = func(sym string) bool { return strings.HasSuffix(sym, ".Cmds%len") }
		e := NewEngine(w, r, rule, sp)
		var preset map[string]*AV
		if mode != "bootstrap line" {
			preset = map[string]*AV{"innerCall": avBool(mode != "top-level line")}
		}
		e.Run(root, preset, nil)
		r.Engine(e)
		if started == 0 {
			r.Violation(rule, "no start in "+mode, "-", "no command start was found on any path of the executor", nil)
		}
		want := []string{"parse"}
		if mode == "top-level line" && asked["env"] {
			want = append(want, "env", "dep")
		}
		for _, g := range want {
			if gates[g] == 0 {
				r.Violation(rule, "no "+g+" check in "+mode, w.Pos(root.Pos()), "the executor never performs the "+g+" check", nil)
			}
		}
	}
	r.Floor(rule, 2)
}

// loadedFrom: the address a struct value was loaded from.
func loadedFrom(x *Ctx, v ssa.Value) *AV {
	for i := 0; i < 4; i++ {
		switch y := v.(type) {
		case *ssa.UnOp:
			if y.Op == token.MUL {
				a := x.Val(y.X)
				if a.K == kAddr && strings.HasPrefix(a.Sym, "cell:") {
					if h := x.St.heap[a.Sym]; h != nil {
						return h
					}
				}
				return a
			}
			return nil
		case *ssa.Alloc:
			a := x.Val(y)
			if h := x.St.heap[a.Sym]; h != nil {
				return h
			}
			return a
		default:
			return x.Val(v)
		}
	}
	return nil
}

func isCallTo(w *World, c *ssa.CallCommon, pkg, name string) bool {
	f := c.StaticCallee()
	return f != nil && f.Name() == name && f.Signature.Recv() == nil && w.inPkg(f, pkg) && f.Parent() == nil
}

// the parse check accepts a line only if no command of it has a parse error
func c02ParseResult(w *World, r *Report) {
	rule := "parse-check-accepts-only-clean-lines"
	root := w.Fn("cli/display", "HandleParseResult")
	loops := 0
	sp := &Spec{Name: rule}
	sp.Inline = func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return w.inPkg(f, "cli/display") && rs.Len() == 1 && rs.At(0).Type().String() == "bool"
	}
	elemErr := func(x *Ctx, v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && w.isField(u.X, "core/model", "ParseResult", "Error") && !w.firstElem(x.Val(u.X)) && !strings.Contains(x.Val(u.X).Sym, "[i:1]")
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if x.Fn == root && elemErr(x, v) && innermostLoop(v.(ssa.Instruction).Block()) != nil {
			return label("perr")
		}
		return nil
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if from.Parent() != root {
			return
		}
		has := false
		for b := range loopBlocks(to) {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && w.isField(u.X, "core/model", "ParseResult", "Error") {
						has = true
					}
				}
			}
		}
		if !has {
			return
		}
		loops++
		lr := loopRange(to)
		if lr == nil || lr.Start != nil || !w.isFlowCmdsVal(lr.Over) {
			x.Report(w.FuncKey(root)+" loop", "the parse check does not visit every command of the flow")
		}
		if x.Fact("@perr") != "nil" {
			x.Report(w.FuncKey(root)+" next", "the parse check passes over a command without having established that it has no parse error")
		}
		delete(x.St.facts, "@perr")
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || x.St.Eval(o.Results[0]) == "false" {
			return
		}
		if x.Get("x") == "" {
			for _, n := range x.St.facts["@perr"].Ne {
				if n == "nil" {
					x.Report(w.FuncKey(root)+" return", "the parse check can accept a line after finding a parse error")
				}
			}
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	if loops > 0 {
		r.Ok(rule, w.FuncKey(root), w.Pos(root.Pos()), fmt.Sprintf("%d abstract exits, loop over all commands", e.Exits))
	}
	r.Floor(rule, 1)
}

func (w *World) isFlowCmdsVal(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return w.isFlowCmds(u.X)
	}
	return w.isField(v, "core/model", "ParsedCmds", "Cmds")
}

// the env check and the dependency collection judge every command and descend into every sub-flow
func c02Coverage(w *World, r *Report) {
	rule := "checks-visit-every-command-and-sub-flow"
	type cfg struct {
		entry  string
		judge  func(c *ssa.CallCommon) bool
		getter string // judged by reading what this method of Cmd returns
		what   string
	}
	for _, k := range []cfg{
		{"CheckEnvOps", func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "EnvOpsChecker", "OnCallCmd") }, "", "env operations"},
		{"CollectDepends", func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "GetDepends") }, "GetDepends", "os-command dependencies"},
	} {
		k := k
		entry := w.Fn("core/model", k.entry)
		// the worker: the function with the judging call, reachable from the entry
		var worker *ssa.Function
		reach := w.closureOf(entry)
		reads := func(in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			return ok && k.getter != "" && w.calledGetter(u, "core/model", "Cmd", k.getter) != nil
		}
		for f := range reach {
			if k.getter != "" && f.Signature.Recv() != nil && w.isPtrTo(f.Signature.Recv().Type(), "core/model", "Cmd") {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && k.judge(c.Common()) || reads(in) {
					worker = f
				}
			})
		}
		if worker == nil {
			r.Violation(rule, k.entry, w.Pos(entry.Pos()), "no code reachable from here judges "+k.what, nil)
			continue
		}
		if worker != entry && !w.callsDirect(entry, worker) {
			r.Violation(rule, k.entry+" entry", w.Pos(entry.Pos()), "the worker is not called by the entry point", nil)
		}
		isRec := func(c *ssa.CallCommon) bool {
			f := c.StaticCallee()
			return f == worker || f == entry
		}
		n := 0
		sp := &Spec{Name: rule}
		sp.Inline = func(f *ssa.Function) bool {
			return f != worker && f != entry && w.inPkg(f, "core/model") && w.closureOf(f)[worker]
		}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if in, ok := v.(ssa.Instruction); ok && reads(in) {
				x.Set("judged", "1")
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch {
			case k.judge(c):
				x.Set("judged", "1")
				return &Action{Opaque: true}
			case isRec(c):
				x.Set("descended", "1")
				return &Action{Opaque: true}
			case w.callsMethod(c, "core/model", "ParsedCmd", "LastCmd"):
				return &Action{Alts: []Alt{{Results: []*AV{avNil}, Apply: func(x *Ctx) { x.Set("nocmd", "1") }}, {Results: []*AV{avNonNil("@lastcmd")}}}}
			case w.callsMethod(c, "core/model", "Cmd", "HasSubFlow"):
				if args[1].K != kConst || args[1].C != "true" {
					return nil
				}
				return &Action{Alts: []Alt{
					{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("subflow", "yes") }},
					{Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("subflow", "no") }},
				}}
			case w.callsMethod(c, "core/model", "Cmd", "Flow"):
				return &Action{Alts: []Alt{
					{Results: []*AV{avNil, avNil, avTrue}, Apply: func(x *Ctx) { x.Set("emptyflow", "1") }},
					{Results: []*AV{avNonNil("@subflow"), avUnknown, avFalse}, Apply: func(x *Ctx) { x.Set("emptyflow", "unrendered") }},
					{Results: []*AV{avNonNil("@subflow"), avUnknown, avTrue}, Apply: func(x *Ctx) {
						x.Set("emptyflow", "")
						x.St.facts["@subflow%len"] = Fact{Ne: []string{"i:0"}}
					}},
				}}
			}
			return nil
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			if from.Parent() != worker {
				return
			}
			lb := loopBlocks(to)
			holds := false
			for b := range lb {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && k.judge(c.Common()) || reads(in) {
						holds = true
					}
				}
			}
			if !holds {
				return
			}
			n++
			lr := loopRange(to)
			if lr == nil || lr.IsMap || !w.isFlowCmdsVal(lr.Over) {
				x.Report(w.FuncKey(worker)+" loop", "%s are not judged for every command of the flow (the loop does not go over all of them)", k.what)
			}
			if x.Get("nocmd") == "" {
				if x.Get("judged") == "" {
					x.Report(w.FuncKey(worker)+" skip", "a command can be passed over without its %s being judged", k.what)
				}
				if x.Get("subflow") != "no" && x.Get("descended") == "" && x.Get("emptyflow") == "" {
					x.Report(w.FuncKey(worker)+" descend", "a command's sub-flow can be passed over without its %s being judged", k.what)
				}
			}
			for _, a := range []string{"nocmd", "judged", "subflow", "descended", "emptyflow"} {
				x.Set(a, "")
			}
			for f := range x.St.facts {
				if strings.HasPrefix(f, "@subflow") || strings.HasPrefix(f, "@lastcmd") {
					delete(x.St.facts, f)
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(worker, nil, nil)
		r.Engine(e)
		if n > 0 {
			r.Ok(rule, w.FuncKey(worker), w.Pos(worker.Pos()), k.what)
		}
		c02WholeWalk(w, r, worker, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && k.judge(c.Common()) || reads(in)
		}, k.what)
		// what a judging call finds must reach the caller's result
		forEachInstr(worker, func(in ssa.Instruction) {
			c, ok := in.(ssa.Value)
			if ci, is := in.(*ssa.Call); !ok || !(is && k.judge(ci.Common()) || reads(in)) {
				return
			}
			if !flowsToStore(c, map[ssa.Value]bool{}) {
				r.Violation(rule, w.FuncKey(worker)+" result", w.InstrPos(in), "what is found about a command's "+k.what+" is dropped", nil)
			} else {
				r.Ok(rule, w.FuncKey(worker)+" result", w.InstrPos(in), "")
			}
		})
	}
	r.Floor(rule, 4)
}

// flowsToStore: the value (or something computed from it) is stored or put into a map.
func flowsToStore(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			if al, ok := rootAddr(u.Addr).(*ssa.Alloc); ok {
				// a local variable: follow what is read from it
				if flowsToStore(al, seen) {
					return true
				}
				continue
			}
			return true
		case *ssa.MapUpdate:
			return true
		case ssa.Value:
			if flowsToStore(u, seen) {
				return true
			}
		}
	}
	return false
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return v
		}
	}
}

// closureOf: functions reachable by static calls and closures.
func (w *World) closureOf(f *ssa.Function) map[*ssa.Function]bool {
	if m, ok := w.reachC[f]; ok {
		return m
	}
	if w.reachC == nil {
		w.reachC = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	m := map[*ssa.Function]bool{}
	work := []*ssa.Function{f}
	m[f] = true
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if len(g.Blocks) == 0 {
			continue
		}
		forEachInstr(g, func(in ssa.Instruction) {
			var cs []*ssa.Function
			if c, ok := in.(ssa.CallInstruction); ok {
				cs = calleesOf(c.Common())
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				cs = append(cs, mc.Fn.(*ssa.Function))
			}
			for _, h := range cs {
				if w.InModule(h) && !m[h] {
					m[h] = true
					work = append(work, h)
				}
			}
		})
	}
	w.reachC[f] = m
	return m
}

func (w *World) callsDirect(f, g *ssa.Function) bool {
	return w.closureOf(f)[g]
}

// the verdict on one env operation
func c02EnvVerdict(w *World, r *Report) {
	rule := "read-of-an-unset-key-is-found"
	root := w.Method("core/model", "EnvOpsChecker", "OnCallCmd")
	bit := map[string]int64{}
	for _, n := range []string{"EnvOpTypeRead", "EnvOpTypeWrite", "EnvOpTypeMayRead", "EnvOpTypeMayWrite"} {
		c, ok := w.SSAPkgs[w.pkgPath("core/model")].Members[n].(*ssa.NamedConst)
		if !ok {
			undecided("constant core/model.%s not found", n)
		}
		v, _ := constant.Int64Val(c.Value.Value)
		bit[n] = v
	}
	// enumerate what the operations on a key so far (this one included) are, with
	// the key not set in the env: 16 accumulated masks x strict or not
	for mask := int64(1); mask < 16; mask++ {
		for _, ignoreMaybe := range []bool{true, false} {
			has := func(n string) bool { return mask&bit[n] != 0 }
			wr, mw, rd, mr := has("EnvOpTypeWrite"), has("EnvOpTypeMayWrite"), has("EnvOpTypeRead"), has("EnvOpTypeMayRead")
			if wr {
				continue // a certain write settles the key (reads after it are fine)
			}
			must := rd && !mw
			if !ignoreMaybe {
				must = rd || mr
			}
			mayNot := !rd && !mr
			name := fmt.Sprintf("ops so far %04b, strict=%v", mask, !ignoreMaybe)
			appended := 0
			iter := 0
			sp := &Spec{Name: rule, MaxDisj: 30}
			sp.Value = func(x *Ctx, v ssa.Value) *AV {
				b, ok := v.(*ssa.BinOp)
				if !ok {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && isNamedField(u.X, "val") && x.Get("acc") != "" {
						return avInt(int(mask))
					}
					return nil
				}
				l, ok1 := intC(x.Val(b.X))
				rr, ok2 := intC(x.Val(b.Y))
				switch b.Op {
				case token.AND:
					if ok1 && ok2 {
						return avInt(l & rr)
					}
				case token.OR:
					if isNamedFieldLoad(b.X, "val") || isNamedFieldLoad(b.Y, "val") {
						x.Set("acc", "1")
						return avInt(int(mask))
					}
				case token.EQL:
					if ok1 && ok2 {
						return avBool(l == rr)
					}
				case token.NEQ:
					if ok1 && ok2 {
						return avBool(l != rr)
					}
				}
				return nil
			}
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						if strings.HasSuffix(c.Args[0].Type().String(), "EnvOpsCheckResult") {
							x.Set("found", "1")
							appended++
						}
					case "len":
						// the key's value in the env: empty
						if cc, ok := c.Args[0].(*ssa.Call); ok && w.pureGetter(cc.Common()) {
							return &Action{Alts: []Alt{{Results: []*AV{avInt(0)}}}}
						}
					}
					return nil
				}
				if w.callsMethod(c, "core/model", "Env", "GetRaw") {
					return &Action{Alts: []Alt{{Results: []*AV{avStr("")}}}}
				}
				return nil
			}
			sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
				if from.Parent() != root || x.Get("acc") == "" {
					return
				}
				iter++
				if must && x.Get("found") == "" {
					x.Report(w.FuncKey(root)+" miss", "a read of a key that nothing has set can go unreported (%s)", name)
				}
				if mayNot && x.Get("found") != "" {
					x.Report(w.FuncKey(root)+" false", "a key that is only written can be reported as read while unset (%s)", name)
				}
				x.Set("acc", "")
				x.Set("found", "")
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(root, map[string]*AV{"ignoreMaybe": avBool(ignoreMaybe)}, nil)
			r.Engine(e)
			if iter > 0 {
				r.Ok(rule, name, w.Pos(root.Pos()), fmt.Sprintf("must report: %v", must))
			}
		}
	}
	r.Floor(rule, 10)
}

func isNamedField(v ssa.Value, name string) bool {
	switch f := v.(type) {
	case *ssa.FieldAddr:
		return fieldName(f.X.Type(), f.Field) == name
	case *ssa.Field:
		return fieldName(f.X.Type(), f.Field) == name
	}
	return false
}

func isNamedFieldLoad(v ssa.Value, name string) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return isNamedField(u.X, name)
	}
	return isNamedField(v, name)
}

// tail-mode calls skip the env check; the runner must then end the flow behind them
func c02TailMode(w *World, r *Report) {
	rule := "tail-mode-commands-take-the-flow"
	var kinds []string
	n := 0
	for _, s := range w.Registrations().Sites {
		if !s.Has("SetAllowTailModeCall") {
			continue
		}
		n++
		ok := len(s.Funcs) > 0
		for _, f := range s.Funcs {
			if !w.sigIs(f, "core/model", "PowerCmd") {
				ok = false
			}
		}
		if !ok {
			r.Violation(rule, "registration in "+w.FuncKey(s.Fn)+" of "+s.Kind, w.InstrPos(s.In), "a command which can be called in tail-mode is not one whose call takes the whole flow", nil)
		}
	}
	_ = kinds
	r.Ok(rule, "registrations", "-", fmt.Sprintf("%d tail-mode commands, all run by the power-command runner", n))
	if n == 0 {
		r.Violation(rule, "registrations", "-", "no tail-mode command registration found", nil)
	}
	// power command runner: TailModeCall => the flow is emptied on every normal return
	for _, f := range w.Funcs {
		if !w.inPkg(f, "core/model") {
			continue
		}
		has := false
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && w.dynCallOf(c.Common(), "core/model", "PowerCmd") {
				has = true
			}
		})
		if !has {
			continue
		}
		f := f
		sp := &Spec{Name: rule}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL && w.isField(u.X, "core/model", "ParsedCmds", "TailModeCall") {
				return label("tail")
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if w.dynCallOf(c, "core/model", "PowerCmd") {
				x.Set("called", "1")
				x.Set("emptied", "")
			}
			return nil
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && w.isFlowCmds(st.Addr) {
				if v := x.Val(st.Val); v.K == kConst && v.C == "nil" {
					x.Set("emptied", "1")
				}
			}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind == exReturn && x.Get("called") != "" && x.Get("emptied") == "" && x.Fact("@tail") != "false" {
				x.Report(w.FuncKey(f), "after a tail-mode call the rest of the flow, which was not checked, can still run")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
		r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "empties the flow after a tail-mode call")
	}
	r.Floor(rule, 2)
}

var _ = sort.Strings
