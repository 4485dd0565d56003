package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: background tasks are registered, finished, waited for and removed.

func init() {
	register(&Prop{
		ID: "C05", Title: "Background commands are always awaited and their failures reported",
		Explain: "Path-sensitive typestate dataflow over the launcher of background commands, over the body of its goroutine (every way a command can end), over the task's own methods, over the functions that wait for tasks and over the end of a run.",
		Run:     runC05,
	})
}

func runC05(w *World, r *Report) {
	c05Launch(w, r)
	c05Finish(w, r)
	c05Waiters(w, r)
	c05RunEnd(w, r)
	c05Remove(w, r)
	c05Lookup(w, r)
}

// a lookup says "none" only when the list is empty, and returns matching pairs
func c05Lookup(w *World, r *Report) {
	rule := "a-listed-task-is-found"
	for _, n := range []string{"GetEarliestTask", "GetLatestTask"} {
		f := w.MethodOpt("core/model", "BgTasks", n)
		if f == nil {
			continue
		}
		key := w.FuncKey(f)
		sp := &Spec{Name: rule}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "len" && (w.isField(c.Args[0], "core/model", "BgTasks", "tids") || w.isField(c.Args[0], "core/model", "BgTasks", "tasks")) {
				return &Action{Alts: []Alt{{Results: []*AV{label("ntasks%len")}}}}
			}
			return nil
		}
		sp.Inline = func(g *ssa.Function) bool { return g.Pkg == f.Pkg && g != f && smallish(g) }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if l, ok := v.(*ssa.Lookup); ok && w.isField(l.X, "core/model", "BgTasks", "tasks") {
				k := x.Val(l.Index)
				x.Set("key", k.Key())
				if l.CommaOk {
					return avTuple(avNonNil("@found"), label("foundok"))
				}
				return avNonNil("@found")
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || len(o.Results) != 3 {
				return
			}
			r.Ok(rule, key, w.Pos(f.Pos()), "")
			ok := o.Results[2]
			if x.St.Eval(ok) == "false" && ok.Sym != "@foundok" {
				if x.Fact("@ntasks%len") != "i:0" {
					x.Report(key+" none", "says that there is no task in the background although the list is not empty")
				}
				return
			}
			if o.Results[1].Sym != "@found" || o.Results[0].Key() != x.Get("key") {
				x.Report(key+" pair", "the id returned is not the one of the task returned")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}

func (w *World) isBgTaskMethod(c *ssa.CallCommon) bool {
	o := calleeObj(c)
	if o == nil {
		return false
	}
	sig := o.Type().(*types.Signature)
	return sig.Recv() != nil && (w.isNamed(sig.Recv().Type(), "core/model", "BgTask") || w.isNamed(sig.Recv().Type(), "core/model", "BgTasks"))
}

// goTarget: the function a go statement starts, with its captured variables
func goTarget(g *ssa.Go) *ssa.Function {
	if m, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		return m.Fn.(*ssa.Function)
	}
	return g.Call.StaticCallee()
}

// envGetKey: a read of the environment with a constant key
func (w *World) envGetKey(c *ssa.CallCommon) (string, bool) {
	if !w.pureGetter(c) || len(c.Args) < 2 {
		return "", false
	}
	return constString(c.Args[1])
}

func (w *World) launchers() (out []struct {
	g    *ssa.Go
	body *ssa.Function
}) {
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			b := goTarget(g)
			if b == nil || len(b.Blocks) == 0 {
				return
			}
			runs := false
			for h := range w.closureOf(b) {
				forEachInstr(h, func(in ssa.Instruction) {
					if c, ok := in.(ssa.CallInstruction); ok && (w.callsMethod(c.Common(), "core/model", "Cmd", "Execute") || w.callsMethod(c.Common(), "core/model", "BgTasks", "GetOrAddTask")) {
						runs = true
					}
				})
			}
			if runs {
				out = append(out, struct {
					g    *ssa.Go
					body *ssa.Function
				}{g, b})
			}
		})
	}
	return
}

func c05Launch(w *World, r *Report) {
	rule := "launcher-hands-over-a-listed-task"
	brule := "background-body-finishes-its-task"
	seen := map[*ssa.Function]bool{}
	for _, l := range w.launchers() {
		l := l
		launcher := l.g.Parent()
		key := w.FuncKey(launcher)
		isReg := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "BgTasks", "GetOrAddTask") }
		isFin := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "BgTask", "OnFinish") }
		// launcher
		preReg := false
		if !seen[launcher] {
			seen[launcher] = true
			sp := &Spec{Name: rule, Event: isReg}
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if isReg(c) {
					if x.Get("go") == "" {
						preReg = true
					}
					x.Set("reg", "1")
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@task")}}}}
				}
				return nil
			}
			sp.Instr = func(x *Ctx, in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Go:
					if in == l.g {
						x.Set("go", "1")
					}
				case *ssa.UnOp:
					if in.Op.String() == "<-" && x.Get("go") != "" {
						x.Set("recv", "1")
					}
				}
			}
			sp.Exit = func(x *Ctx, o *Outcome) {
				if o.Kind != exReturn {
					return
				}
				if x.Get("go") == "" {
					// the launcher must not claim to have scheduled
					if i := lastBoolIdx(launcher.Signature); i >= 0 && x.St.Eval(o.Results[i]) != "false" {
						x.Report(key+" unscheduled", "reports a background command as scheduled without having started it")
					}
					return
				}
				r.Ok(rule, key, w.InstrPos(l.g), "")
				if x.Get("recv") == "" && x.Get("reg") == "" {
					x.Report(key+" no wait", "returns while the background command may not be in the task list yet, so that the end of the run can miss it")
				}
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(launcher, nil, nil)
			r.Engine(e)
		}
		// body
		for _, rec := range []bool{true, false} {
			rec := rec
			bkey := key + " goroutine"
			isExec := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "Execute") }
			sp := &Spec{Name: brule, Event: func(c *ssa.CallCommon) bool {
				if isReg(c) || isFin(c) {
					return true
				}
				return isExec(c)
			}, Within: func(f *ssa.Function) bool { return f.Pkg == launcher.Pkg }}
			sp.MayPanic = func(c *ssa.CallCommon) bool {
				o := calleeObj(c)
				if o == nil {
					return false
				}
				return o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), w.ModPath) && !w.isBgTaskMethod(c) && !w.pureGetter(c)
			}
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if k, ok := w.envGetKey(c); ok && k == "sys.panic.recover" {
					return &Action{Alts: []Alt{{Results: []*AV{avBool(rec)}}}}
				}
				switch {
				case isReg(c):
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@task")}, Apply: func(x *Ctx) { x.Set("reg", "1") }}}}
				case w.callsMethod(c, "core/model", "BgTask", "OnStart"):
					x.Set("start", "1")
				case isFin(c):
					r.Ok(brule, bkey+" finishes", w.InstrPos(x.In), "")
					if x.Get("fin") != "" {
						x.Report(bkey+" twice", "the background task is finished twice: the second notification blocks for ever or is taken for another wait")
					}
					if x.Get("reg") == "" && !preReg {
						x.Report(bkey+" before", "the background task is finished before it is in the list")
					}
					if args[0].Sym != "@task" && !preReg {
						x.Report(bkey+" other", "another task than the registered one is finished")
					}
					x.Set("fin", "1")
					if rec {
						failed := x.Get("failed") != ""
						n := x.St.IsNil(args[1])
						if failed && n != "false" {
							x.Report(bkey+" error lost", "a background command that failed can finish its task without an error")
						}
						if !failed && x.Get("panicked") == "" && x.Get("ran") != "" && n == "false" {
							x.Report(bkey+" error made", "a background command that succeeded finishes its task with an error")
						}
					}
					if x.Get("ran") == "" && x.St.panic == nil && x.Get("panicked") == "" {
						x.Report(bkey+" early", "the background task can be reported finished before its command has run")
					}
					return &Action{Opaque: true, Pure: true}
				case isExec(c):
					r.Ok(brule, bkey+" runs", w.InstrPos(x.In), "")
					if x.Get("reg") == "" && !preReg {
						x.Report(bkey+" unlisted", "the background command can run before it is in the task list")
					}
					if x.Get("fin") != "" {
						x.Report(bkey+" after finish", "the background command can run after its task was reported finished")
					}
					res := func(ok bool) []*AV {
						out := []*AV{}
						for i := 0; i < c.Signature().Results().Len(); i++ {
							if i == lastBoolIdx(c.Signature()) {
								out = append(out, avBool(ok))
							} else {
								out = append(out, avUnknown)
							}
						}
						return out
					}
					return &Action{Alts: []Alt{
						{Results: res(true), Apply: func(x *Ctx) { x.Set("ran", "1") }, Note: "command succeeds"},
						{Results: res(false), Apply: func(x *Ctx) { x.Set("ran", "1"); x.Set("failed", "1") }, Note: "command fails"},
						{Panics: true, Val: avNonNil("@panicvalue"), Apply: func(x *Ctx) { x.Set("ran", "1"); x.Set("failed", "1") }, Note: "command panics"},
					}}
				}
				if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "recover" && x.St.panic != nil {
					x.Set("panicked", "1")
				}
				return nil
			}
			sp.Instr = func(x *Ctx, in ssa.Instruction) {
				_, ok := in.(*ssa.Send)
				if !ok || x.Get("sent") != "" {
					return
				}
				x.Set("sent", "1")
				if x.Get("reg") == "" && !preReg {
					x.Report(bkey+" early hand-over", "the launcher is told to go on before the task is in the list, so that the end of the run can miss it")
				}
			}
			sp.Exit = func(x *Ctx, o *Outcome) {
				r.Ok(brule, fmt.Sprintf("%s exit, recover=%v", bkey, rec), w.Pos(l.g.Pos()), "")
				if x.Get("reg") == "" && !preReg {
					if o.Kind == exReturn {
						x.Report(bkey+" returns unlisted", "the goroutine of a background command can end without having been listed")
					}
					return
				}
				if o.Kind == exReturn && x.Get("sent") == "" && !preReg {
					x.Report(bkey+" silent", "the goroutine of a background command can end without having told its launcher")
				}
				if o.Kind == exReturn && x.Get("fin") == "" {
					x.Report(bkey+" unfinished", "the goroutine of a background command can end without having finished its task: whoever waits for it waits for ever")
				}
				if rec && o.Kind == exPanic && x.Get("start") != "" {
					x.Report(bkey+" crash", "a failure of a background command can take the whole process down although panics are to be recovered")
				}
				if o.Kind == exReturn && x.Get("ran") == "" && x.Get("panicked") == "" {
					x.Report(bkey+" not run", "the goroutine of a background command can end without running the command")
				}
			}
			e := NewEngine(w, r, brule, sp)
			e.Run(l.body, nil, nil)
			r.Engine(e)
		}
	}
	r.Floor(rule, 1)
	r.Floor(brule, 3)
	r.Assume = append(r.Assume, "panic values are errors (decided by C15)", "a panic of a background command while sys.panic.recover is off ends the process, which is a reported failure")
}

// the task's own methods
func c05Finish(w *World, r *Report) {
	rule := "finish-is-visible-before-it-is-notified"
	f := w.Method("core/model", "BgTask", "OnFinish")
	key := w.FuncKey(f)
	sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool {
		o := calleeObj(c)
		return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync"
	}}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		o := calleeObj(c)
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" {
			return nil
		}
		switch o.Name() {
		case "Lock":
			x.Set("held", "1")
		case "Unlock":
			x.Set("held", "")
		}
		return &Action{Opaque: true, Pure: true}
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if w.isField(in.Addr, "core/model", "BgTaskInfo", "Finished") && x.Val(in.Val) == avTrue {
				x.Set("fin", "1")
			}
			if w.isField(in.Addr, "core/model", "BgTaskInfo", "Err") && x.Val(in.Val).Sym == "p:"+f.Params[1].Name() {
				x.Set("err", "1")
			}
		case *ssa.Send:
			r.Ok(rule, key+" notifies", w.InstrPos(in), "")
			if x.Get("sent") != "" {
				x.Report(key+" twice", "a finished task notifies twice; nobody receives the second one and the background command never ends")
			}
			x.Set("sent", "1")
			if x.Get("held") != "" {
				x.Report(key+" locked", "the finish notification is sent while the task's lock is held: nobody can read the task's state until somebody waits for it")
			}
			if x.Get("fin") == "" || x.Get("err") == "" {
				x.Report(key+" order", "the finish notification is sent before the task's result is stored")
			}
			if x.Val(in.X).Sym != "p:"+f.Params[1].Name() {
				x.Report(key+" value", "what is notified is not the error the command ended with")
			}
			if !w.isField(in.Chan, "core/model", "BgTask", "finishNotifier") {
				x.Report(key+" channel", "the notification goes to another channel than the one waited on")
			}
		}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind == exReturn && x.Get("sent") == "" {
			x.Report(key+" silent", "finishing a task may notify nobody")
		}
		if o.Kind == exReturn && x.Get("held") != "" {
			x.Report(key+" lock kept", "the task's lock is kept")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	// waiting receives exactly that notification
	g := w.Method("core/model", "BgTask", "WaitForFinish")
	sp = &Spec{Name: rule}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" && w.isField(u.X, "core/model", "BgTask", "finishNotifier") {
			x.Set("recv", x.Get("recv")+"1")
		}
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "<-" {
			return label("notified")
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		r.Ok(rule, w.FuncKey(g), w.Pos(g.Pos()), "")
		if o.Kind == exReturn && (x.Get("recv") != "1" || o.Results[0].Sym != "@notified") {
			x.Report(w.FuncKey(g), "waiting for a task does not return what its finish notified")
		}
	}
	e = NewEngine(w, r, rule, sp)
	e.Run(g, nil, nil)
	r.Engine(e)
	r.Floor(rule, 2)
}

func (w *World) isGetTask(c *ssa.CallCommon) bool {
	o := calleeObj(c)
	if o == nil || !w.isBgTaskMethod(c) {
		return false
	}
	res := o.Type().(*types.Signature).Results()
	if res.Len() != 3 {
		return false
	}
	return w.isPtrTo(res.At(1).Type(), "core/model", "BgTask")
}

// waitSpec models waiting for tasks; used for the waiting commands and the end of a run.
func (w *World) waitSpec(rule string, r *Report, root *ssa.Function) *Spec {
	isWait := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "BgTask", "WaitForFinish") }
	isRem := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "BgTasks", "RemoveTask") }
	sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool { return isWait(c) || isRem(c) || w.isGetTask(c) }}
	sp.Within = func(f *ssa.Function) bool {
		return !w.callsExecutorExecuteIn(f)
	}
	sp.Track = func(s string) bool { return strings.HasPrefix(s, "@errs") }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if k, ok := w.envGetKey(c); ok && k == "sys.bg.wait" {
			return &Action{Alts: []Alt{{Results: []*AV{label("bgwait")}}}}
		}
		at := w.FuncKey(x.Fn)
		switch {
		case w.isGetTask(c):
			n := calleeObj(c).Name()
			// each lookup gives a task of its own
			return &Action{Alts: []Alt{
				{Results: []*AV{avSym("@tid:" + n), avNonNil("@bgtask:" + n), avTrue}, Note: n + " finds a task", Apply: func(x *Ctx) { x.Set("none", "") }},
				{Results: []*AV{avStr(""), avNil, avFalse}, Note: n + " finds none", Apply: func(x *Ctx) {
					if n == "GetEarliestTask" || n == "GetLatestTask" {
						x.Set("none", "1")
					}
				}},
			}}
		case isWait(c):
			r.Ok(rule, at+" waits", w.InstrPos(x.In), "")
			if p := x.Get("pending"); p != "" {
				x.Report(at+" kept", "a task that was waited for stays in the list while another one is waited for")
			}
			x.Set("none", "")
			x.Set("pending", "@tid:"+strings.TrimPrefix(args[0].Sym, "@bgtask:"))
			return &Action{Alts: []Alt{
				{Results: []*AV{avNil}, Note: "the task had succeeded"},
				{Results: []*AV{avNonNil("@taskerr")}, Note: "the task had failed", Apply: func(x *Ctx) { x.Set("err", "1") }},
			}}
		case isRem(c):
			r.Ok(rule, at+" removes", w.InstrPos(x.In), "")
			p := x.Get("pending")
			if p == "" {
				x.Report(at+" unwaited", "a task is removed from the list without having been waited for")
			} else if args[1].Sym != p {
				x.Report(at+" other", "another task is removed than the one that was waited for")
			}
			x.Set("pending", "")
			return &Action{Opaque: true, Pure: true}
		}
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" && isErrorSlice(c.Args[0].Type()) {
			// a list of errors: all that matters is whether it is empty
			a := args[0]
			if a.Sym == "@errs" || appendsSome(c) {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@errs")}, Apply: func(x *Ctx) { x.St.facts["@errs%len"] = Fact{Ne: []string{"i:0"}} }}}}
			}
			return &Action{Alts: []Alt{{Results: []*AV{args[1]}}}}
		}
		return nil
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if p := x.Get("pending"); p != "" && from.Parent() != nil {
			// the loop that waits goes round with the task still listed
			if loopCalls(w, to, isWait) {
				x.Report(w.FuncKey(from.Parent())+" loop", "a task that was waited for stays in the list when the next one is looked up")
			}
		}
	}
	return sp
}

func isErrorSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

// appendsSome: append(x, a, ...) with at least one element given
func appendsSome(c *ssa.CallCommon) bool {
	if len(c.Args) < 2 {
		return false
	}
	s, ok := c.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	arr, ok := deref(a.Type()).Underlying().(*types.Array)
	return ok && arr.Len() > 0 && s.Low == nil && s.High == nil
}

func loopCalls(w *World, h *ssa.BasicBlock, is func(c *ssa.CallCommon) bool) bool {
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if is(c.Common()) {
				return true
			}
			if f := c.Common().StaticCallee(); f != nil && w.InModule(f) {
				for g := range w.closureOf(f) {
					hit := false
					forEachInstr(g, func(in ssa.Instruction) {
						if c, ok := in.(ssa.CallInstruction); ok && is(c.Common()) {
							hit = true
						}
					})
					if hit {
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *World) callsExecutorExecuteIn(f *ssa.Function) bool {
	hit := false
	forEachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && w.callsExecutorExecute(c.Common()) {
			hit = true
		}
	})
	return hit
}

// commands that wait for background tasks
func c05Waiters(w *World, r *Report) {
	rule := "a-waited-task-is-removed-and-its-failure-reported"
	isWait := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "BgTask", "WaitForFinish") }
	rel := w.Relevant(isWait)
	n := 0
	for _, f := range w.Funcs {
		if !rel[f] || !w.isCmdFunc(f) || w.callsExecutorExecuteIn(f) {
			continue
		}
		f := f
		key := w.FuncKey(f)
		sp := w.waitSpec(rule, r, f)
		sp.Exit = func(x *Ctx, o *Outcome) {
			r.Ok(rule, key, w.Pos(f.Pos()), "")
			if o.Kind != exReturn {
				return
			}
			if x.Get("pending") != "" {
				x.Report(key+" kept", "a task that was waited for stays in the list: the end of the run waits for it for ever")
			}
			if i := lastBoolIdx(f.Signature); i >= 0 && x.Get("err") != "" && x.St.Eval(o.Results[i]) != "false" {
				x.Report(key+" failure lost", "waits for a background command that failed and can report success")
			}
			if i := lastBoolIdx(f.Signature); i >= 0 && x.Get("err") == "" && x.St.Eval(o.Results[i]) == "false" {
				x.Report(key+" failure made", "reports a failure although no awaited background command failed")
			}
		}
		n++
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Facts["waiting commands"] = n
	r.Floor(rule, 4)
}

// the end of a run
func c05RunEnd(w *World, r *Report) {
	rule := "a-run-ends-after-its-background-tasks"
	root := w.Method("core/execute", "Executor", "Run")
	key := w.FuncKey(root)
	inner := func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !w.isNamed(f.Signature.Recv().Type(), "core/execute", "Executor") || f == root {
			return false
		}
		return w.callsExecutorExecute(c) || lastBoolIdx(f.Signature) >= 0 && w.mentionsCmdExecute(f)
	}
	sp := w.waitSpec(rule, r, root)
	call := sp.Call
	sp.Within = nil
	sp.Inline = func(f *ssa.Function) bool {
		return w.waitRel(f) || f.Pkg == root.Pkg && smallish(f) && f.Signature.Recv() == nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if inner(c) {
			x.Set("runs", x.Get("runs")+"1")
			x.Set("none", "")
			i := lastBoolIdx(c.Signature())
			var res [2][]*AV
			for k := 0; k < 2; k++ {
				for j := 0; j < c.Signature().Results().Len(); j++ {
					if j == i {
						res[k] = append(res[k], avBool(k == 0))
					} else {
						res[k] = append(res[k], avUnknown)
					}
				}
			}
			return &Action{Alts: []Alt{{Results: res[0], Note: "commands succeed"}, {Results: res[1], Note: "commands fail", Apply: func(x *Ctx) { x.Set("failed", "1") }}}}
		}
		return call(x, c, callee, args)
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		r.Ok(rule, key, w.Pos(root.Pos()), "")
		res := x.St.Eval(o.Results[0])
		if x.Get("runs") == "11" && x.Get("none") == "" && x.Fact("@bgwait") != "false" {
			x.Report(key+" early", "a run can end while background commands it started are still listed")
		}
		if x.Get("pending") != "" {
			x.Report(key+" kept", "a task that was waited for stays in the list")
		}
		if x.Get("err") != "" && res != "false" {
			x.Report(key+" failure lost", "a run can be reported as succeeded although a background command failed")
		}
		if x.Get("failed") != "" && res != "false" {
			x.Report(key+" own failure lost", "a run can be reported as succeeded although its commands failed")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	r.Floor(rule, 1)
	// nothing else decides to wait or not
	r.Assume = append(r.Assume, "a run that is aborted by a panic ends without waiting; it is reported as failed (C01)")
}

func (w *World) waitRel(f *ssa.Function) bool {
	return w.Memo("waitRel", func() interface{} {
		return w.Relevant(func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "BgTask", "WaitForFinish") })
	}).(map[*ssa.Function]bool)[f] && !w.mentionsCmdExecute(f)
}

func (w *World) mentionsCmdExecute(f *ssa.Function) bool {
	return w.Memo("relCmdExecute", func() interface{} {
		return w.Relevant(func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "Execute") })
	}).(map[*ssa.Function]bool)[f]
}

// what is added under a task's id, name or place is taken away with it
func c05Remove(w *World, r *Report) {
	rule := "removing-a-task-removes-all-traces"
	add := w.Method("core/model", "BgTasks", "GetOrAddTask")
	rem := w.Method("core/model", "BgTasks", "RemoveTask")
	added := map[string]bool{}
	scan := func(f *ssa.Function, fn func(in ssa.Instruction)) {
		for g := range w.closureOf(f) {
			if g.Signature.Recv() != nil && w.isNamed(g.Signature.Recv().Type(), "core/model", "BgTasks") || g == f || g.Parent() != nil {
				forEachInstr(g, fn)
			}
		}
	}
	fieldOf := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok && w.isNamed(deref(fa.X.Type()), "core/model", "BgTasks") {
			return fieldName(fa.X.Type(), fa.Field)
		}
		return ""
	}
	scan(add, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			if n := fieldOf(in.Map); n != "" {
				added[n] = true
			}
		case *ssa.Store:
			if n := fieldOf(in.Addr); n != "" {
				added[n] = true
			}
		}
	})
	removed := map[string]bool{}
	scan(rem, func(in ssa.Instruction) {
		switch in := in.(type) {
		case ssa.CallInstruction:
			if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				removed[fieldOf(in.Common().Args[0])] = true
			}
		case *ssa.Store:
			removed[fieldOf(in.Addr)] = true
		}
	})
	c05Cut(w, r, rule, add, rem, scan, fieldOf)
	for _, n := range sortedKeys(added) {
		r.Ok(rule, "BgTasks."+n, w.Pos(rem.Pos()), "")
		if !removed[n] {
			r.Violation(rule, "BgTasks."+n, w.Pos(rem.Pos()), "a task that was waited for stays reachable through this list: it can be waited for again, for ever", nil)
		}
	}
	// on every returning path
	sp := &Spec{Name: rule, Inline: func(f *ssa.Function) bool { return false }}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				if n := fieldOf(c.Common().Args[0]); n == "tasks" {
					if p := x.Val(c.Common().Args[1]); p.Sym == "p:"+rem.Params[1].Name() {
						x.Set("del", "1")
					}
				}
			}
		}
	}
	tidp := rem.Params[1]
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		b, ok := v.(*ssa.BinOp)
		if !ok || (b.X != ssa.Value(tidp) && b.Y != ssa.Value(tidp)) || (b.Op.String() != "==" && b.Op.String() != "!=") {
			return nil
		}
		x.Set("cmp", "1")
		if x.Fact("@same") == "true" {
			x.Set("hit", "1")
		}
		delete(x.St.facts, "@same")
		return &AV{K: kPred, Sym: "@same", C: "true", Neg: b.Op.String() == "!="}
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		lr := loopRange(to)
		if lr == nil || fieldOf(lr.Over) != "tids" {
			return
		}
		if lr.Start != nil || x.Get("cmp") == "" {
			x.Report("BgTasks.tids search", "the place of a removed task is not looked for among all tasks")
		}
		x.Set("cmp", "")
		if x.Fact("@same") == "true" {
			x.Set("hit", "1")
		}
	}
	base := sp.Instr
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		base(x, in)
		if s, ok := in.(*ssa.Store); ok && fieldOf(s.Addr) == "tids" {
			x.Set("cut", "1")
		}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind == exReturn && (x.Get("hit") != "" || x.Fact("@same") == "true") && x.Get("cut") == "" {
			x.Report("BgTasks.tids", "the id of a task that was waited for can stay in the list")
		}
		if o.Kind == exReturn && x.Get("del") == "" {
			x.Report(w.FuncKey(rem)+" path", "removing a task can return with the task still in the list")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(rem, nil, nil)
	r.Engine(e)
	r.Floor(rule, 3)
}

// c05Cut: of the list of ids exactly the one is taken out, and an entry of a map
// is deleted under the key it was put there with
func c05Cut(w *World, r *Report, rule string, add, rem *ssa.Function, scan func(*ssa.Function, func(ssa.Instruction)), fieldOf func(ssa.Value) string) {
	scan(rem, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || fieldOf(st.Addr) != "tids" {
			return
		}
		// what is kept: slices of the old list
		var cuts []*ssa.Slice
		known := true
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			switch v := v.(type) {
			case *ssa.Call:
				if c := isAppend(v); c != nil {
					for _, a := range c.Call.Args {
						walk(a)
					}
					return
				}
				known = false
			case *ssa.Slice:
				if fieldOf(v.X) == "tids" {
					cuts = append(cuts, v)
					return
				}
				if _, ok := v.X.(*ssa.Alloc); ok {
					return // a list made here
				}
				known = false
			case *ssa.Const:
			default:
				known = false
			}
		}
		walk(st.Val)
		if !known {
			return
		}
		head, tail := false, false
		for _, c := range cuts {
			if c.High != nil && (c.Low == nil || isZeroInt(c.Low)) {
				head = true
			}
			if c.Low != nil && c.High == nil {
				tail = true
			}
		}
		switch {
		case !head || !tail:
			r.Violation(rule, "BgTasks.tids kept", w.InstrPos(in), "taking one task off the list takes others with it: they are never waited for", nil)
		default:
			r.Ok(rule, "BgTasks.tids kept", w.InstrPos(in), "what is before and behind it stays")
		}
	})
	// key of each map, at the place it is put in
	putKey := map[string]ssa.Value{}
	scan(add, func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MapUpdate); ok && m.Parent() == add {
			if n := fieldOf(m.Map); n != "" {
				putKey[n] = m.Key
			}
		}
	})
	scan(rem, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if b, ok := c.Common().Value.(*ssa.Builtin); !ok || b.Name() != "delete" {
			return
		}
		n := fieldOf(c.Common().Args[0])
		key := c.Common().Args[1]
		put, ok := putKey[n]
		if !ok {
			return
		}
		u, ok := key.(*ssa.UnOp)
		if !ok {
			return
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return
		}
		// a field of the task: what was put into it when the task was made
		fld := fieldName(fa.X.Type(), fa.Field)
		src, found := setWhenMade(w, add, fld)
		if !found {
			return
		}
		if src != put {
			r.Violation(rule, "BgTasks."+n+" key", w.InstrPos(in), "a task is taken out of the list under another key than it was put there with: it stays reachable and can be waited for again, for ever", nil)
		} else {
			r.Ok(rule, "BgTasks."+n+" key", w.InstrPos(in), "the key it was put in with")
		}
	})
}

func isZeroInt(v ssa.Value) bool { n, ok := constInt(v); return ok && n == 0 }

// setWhenMade: what goes into the field of what the function makes (by a call of a
// function which stores its parameter there, or here)
func setWhenMade(w *World, f *ssa.Function, fld string) (val ssa.Value, found bool) {
	n := 0
	note := func(v ssa.Value) { val, found = v, true; n++ }
	forEachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == fld {
				note(in.Val)
			}
		case *ssa.Call:
			g := in.Call.StaticCallee()
			if g == nil || !w.InModule(g) || len(g.Blocks) == 0 {
				return
			}
			forEachInstr(g, func(i2 ssa.Instruction) {
				st, ok := i2.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != fld {
					return
				}
				for i, p := range g.Params {
					if st.Val == ssa.Value(p) && i < len(in.Call.Args) {
						note(in.Call.Args[i])
					}
				}
			})
		}
	})
	return val, found && n == 1
}
