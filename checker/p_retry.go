package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: retry skips what succeeded and only that.

func init() {
	register(&Prop{
		ID: "C03", Title: "A retried session re-runs exactly what had not succeeded",
		Explain: "Path-sensitive dataflow over the construction of execution masks from a recorded session, over the command runner that honours them (each kind of command, each mask policy) and over the record it leaves behind; structural check that masks travel with the commands they belong to.",
		Run:     runC03,
	})
}

func (w *World) constStr(pkg, name string) string {
	p := w.SSAPkgs[w.pkgPath(pkg)]
	if p != nil {
		if c, ok := p.Members[name].(*ssa.NamedConst); ok {
			return constantStringVal(c.Value)
		}
	}
	undecided("constant %s.%s not found", pkg, name)
	return ""
}

func runC03(w *World, r *Report) {
	c03Gen(w, r)
	c03Honour(w, r)
	c03Pass(w, r)
	c03Source(w, r)
	c03Fresh(w, r)
	c03Record(w, r)
}

// what the record does not say succeeded is never read as a success
func c03Record(w *World, r *Report) {
	rule := "an-unrecorded-result-is-no-success"
	okv := w.constStr("core/model", "ExecutedResultSucceeded")
	isOk := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && constantStringVal(c) == okv && w.isNamed(c.Type(), "core/model", "ExecutedResult")
	}
	var mayOk func(v ssa.Value, d int) bool
	mayOk = func(v ssa.Value, d int) bool {
		if isOk(v) {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok && d < 6 {
			for _, e := range p.Edges {
				if mayOk(e, d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range w.Funcs {
		if !w.inPkg(f, "core/model") || len(f.Blocks) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && (w.isField(s.Addr, "core/model", "ExecutedCmd", "Result") || w.isField(s.Addr, "core/model", "ExecutedFlow", "Result")) {
				if mayOk(s.Val, 0) {
					r.Violation(rule, w.FuncKey(f)+" stores a result", w.InstrPos(in), "a recorded command or flow is taken as succeeded without the record saying so", nil)
				} else {
					r.Ok(rule, w.FuncKey(f)+" stores a result", w.InstrPos(in), "")
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				res := c.Call.Signature().Results()
				parses := false
				for i := 0; i < res.Len(); i++ {
					parses = parses || w.isNamed(res.At(i).Type(), "core/model", "ExecutedResult")
				}
				if !parses {
					return
				}
				for _, a := range c.Call.Args {
					if mayOk(a, 0) {
						r.Violation(rule, w.FuncKey(f)+" default", w.InstrPos(in), "a missing result of a recorded command or flow is read as a success", nil)
						return
					}
				}
				r.Ok(rule, w.FuncKey(f)+" default", w.InstrPos(in), "")
			}
		})
	}
	r.Floor(rule, 3)
}

func isSkipConst(w *World, a *AV) (skip, exec bool) {
	if a == nil || a.K != kConst {
		return false, false
	}
	v := a.C
	if i := strings.Index(v, "@"); i >= 0 {
		v = v[:i]
	}
	return v == "s:"+w.constStr("core/model", "ExecPolicySkip"), v == "s:"+w.constStr("core/model", "ExecPolicyExec")
}

// masks built from recorded commands
func c03Gen(w *World, r *Report) {
	rule := "masks-skip-exactly-what-succeeded"
	okv := w.constStr("core/model", "ExecutedResultSucceeded")
	n := 0
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) || f.Parent() != nil {
			continue
		}
		// builds masks and reads recorded results
		builds, reads := false, false
		var scan func(g *ssa.Function)
		scan = func(g *ssa.Function) {
			forEachInstr(g, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && w.isField(s.Addr, "core/model", "ExecuteMask", "ExecPolicy") {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := a.X.(*ssa.Alloc); fresh {
							builds = true
						}
					}
				}
				if v, ok := in.(ssa.Value); ok && w.isField(v, "core/model", "ExecutedCmd", "Result") {
					reads = true
				}
			})
		}
		scan(f)
		if !builds {
			continue
		}
		// the results may be read by a helper
		for g := range w.closureOf(f) {
			if g != f && w.inPkg(g, "core/model") {
				forEachInstr(g, func(in ssa.Instruction) {
					if v, ok := in.(ssa.Value); ok && w.isField(v, "core/model", "ExecutedCmd", "Result") {
						reads = true
					}
				})
			}
		}
		if !reads {
			continue
		}
		f := f
		key := w.FuncKey(f)
		sp := &Spec{Name: rule, MaxDisj: 40}
		sp.Inline = func(g *ssa.Function) bool { return g.Pkg == f.Pkg && g != f && smallish(g) }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return nil
			}
			switch {
			case w.isField(u.X, "core/model", "ExecutedCmd", "Result"):
				return label("result")
			case w.isField(u.X, "core/model", "ExecutedCmd", "SubFlow"):
				return label("subflow")
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if c.StaticCallee() == f {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@submasks")}}}}
			}
			return nil
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !w.isNamed(deref(fa.X.Type()), "core/model", "ExecuteMask") {
				return
			}
			v := x.Val(s.Val)
			succ := x.Fact("@result")
			isOk := succ == "s:"+okv || strings.HasPrefix(succ, "s:"+okv+"@")
			notOk := false
			for _, ne := range x.St.facts["@result"].Ne {
				if ne == "s:"+okv || strings.HasPrefix(ne, "s:"+okv+"@") {
					notOk = true
				}
			}
			if succ != "" && !isOk {
				notOk = true
			}
			leaf := x.Fact("@subflow") == "nil"
			nested := false
			for _, ne := range x.St.facts["@subflow"].Ne {
				nested = nested || ne == "nil"
			}
			skip, exec := isSkipConst(w, v)
			name := fieldName(fa.X.Type(), fa.Field)
			switch name {
			case "ExecPolicy", "FileNFlowExecPolicy":
				n++
				r.Ok(rule, key+"."+name, w.InstrPos(in), "")
				if !skip && !exec {
					x.Report(key+" "+name, "the policy stored in a mask is not one of the two known ones on some path")
				}
				if skip && !isOk {
					x.Report(key+" "+name+" skip", "a recorded command can be masked as skipped although its result was not a success")
				}
				if exec && isOk && name == "ExecPolicy" && leaf {
					x.Report(key+" "+name+" redo", "a recorded command that succeeded is masked to run again")
				}
				if exec && isOk && name == "FileNFlowExecPolicy" && nested {
					x.Set("fnexec", "1")
				}
				if skip && name == "ExecPolicy" {
					x.Set("allskip", "1")
				}
				_ = notOk
			case "ResultIfExecuted":
				if !(v.K == kSym && v.Sym == "@result") && !(v.K == kConst && v.C == succ) {
					x.Report(key+" ResultIfExecuted", "the recorded result does not travel with the mask")
				}
			case "SubFlow":
				if nested && !strings.HasPrefix(v.Sym, "@submasks") {
					x.Report(key+" SubFlow", "the masks of a recorded sub-flow are dropped")
				}
			}
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			if from.Parent() != f {
				return
			}
			if x.Get("fnexec") != "" && x.Get("allskip") == "" {
				x.Report(key+" nested redo", "the script of a recorded command that succeeded is masked to run again")
			}
			x.Set("fnexec", "")
			x.Set("allskip", "")
			lr := loopRange(to)
			if lr != nil && w.isField(derefVal(lr.Over), "core/model", "ExecutedFlow", "Cmds") {
				if lr.Start != nil {
					x.Report(key+" loop", "masks are not built for every recorded command in order")
				}
				if x.Get("appended") == "" {
					x.Report(key+" gap", "a recorded command can be left without a mask, which shifts the masks of those after it")
				}
				x.Set("appended", "")
			}
			delete(x.St.facts, "@result")
			delete(x.St.facts, "@subflow")
		}
		prev := sp.Call
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" && strings.HasSuffix(c.Args[0].Type().String(), "ExecuteMask") {
				x.Set("appended", "1")
			}
			return prev(x, c, callee, args)
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 2)
}

func derefVal(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

func smallish(f *ssa.Function) bool { return len(f.Blocks) > 0 && len(f.Blocks) <= 20 }

// the runner honours the mask of the command
func c03Honour(w *World, r *Report) {
	rule := "mask-decides-whether-the-command-runs"
	root := w.Method("core/model", "Cmd", "Execute")
	mk := "p:" + paramNameOf(root, func(t types.Type) bool { return w.isNamed(deref(t), "core/model", "ExecuteMask") })
	isEv := func(c *ssa.CallCommon) bool {
		k, ok := w.outcomeCall(c)
		return ok && k != "Cmd.Execute" || w.callsMethod(c, "core/model", "ExecutingFlow", "OnCmdFinish")
	}
	execC, skipC := "s:"+w.constStr("core/model", "ExecPolicyExec"), "s:"+w.constStr("core/model", "ExecPolicySkip")
	okC := "s:" + w.constStr("core/model", "ExecutedResultSucceeded")
	type cfg struct{ mask, fn, res string } // mask: none | exec | skip
	for _, k := range []cfg{{"none", "", ""}, {"exec", "exec", ""}, {"exec", "skip", "ok"}, {"skip", "exec", "ok"}, {"skip", "exec", "other"}, {"skip", "skip", "other"}} {
		k := k
		name := "mask " + k.mask + "/" + k.fn + "/" + k.res
		pol := func(s string) *AV {
			if s == "exec" {
				return &AV{K: kConst, C: execC}
			}
			return &AV{K: kConst, C: skipC}
		}
		sp := &Spec{Name: rule, Event: isEv, MaxDisj: 12}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return nil
			}
			if w.isField(u.X, "core/model", "Cmd", "ty") {
				return label("ty")
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || !w.isNamed(deref(fa.X.Type()), "core/model", "ExecuteMask") {
				return nil
			}
			base := x.Val(fa.X).Sym
			fld := fieldName(fa.X.Type(), fa.Field)
			switch {
			case base == "@freshmask" && (fld == "ExecPolicy" || fld == "FileNFlowExecPolicy"):
				return pol("exec")
			case base == "@freshmask" && fld == "ResultIfExecuted":
				return avStr("other")
			case base == mk && fld == "ExecPolicy":
				return pol(k.mask)
			case base == mk && fld == "FileNFlowExecPolicy":
				return pol(k.fn)
			case base == mk && fld == "ResultIfExecuted":
				if k.res == "ok" {
					return &AV{K: kConst, C: okC}
				}
				return avStr("other")
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if w.callsMethod(c, "core/model", "Blender", "Invoke") {
				return &Action{Opaque: true}
			}
			switch {
			case w.callsMethod(c, "core/model", "", "NewExecuteMask"):
				x.Set("fresh", "1")
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@freshmask")}}}}
			case w.callsMethod(c, "core/model", "Cmd", "MustExeInExecuted"):
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("must", "1") }}, {Results: []*AV{avFalse}}}}
			case w.callsMethod(c, "core/model", "ExecutingFlow", "OnCmdFinish"):
				if k.mask != "skip" {
					break
				}
				if x.Get("must") != "" || x.Get("ran") != "" {
					return nil
				}
				a := args[len(args)-1]
				v := x.St.Eval(a)
				want := "true"
				if k.res == "ok" {
					want = "false"
				}
				r.Ok(rule, "record of a skipped command, "+name, w.InstrPos(x.In), "")
				if v != want && k.res == "ok" {
					x.Report("record "+k.res, "a command that is skipped because it had succeeded before can be recorded as skipped, so that the next retry runs it again")
				}
				if v != want && k.res != "ok" {
					x.Report("record "+k.res, "a command that did not run and had not succeeded before can be recorded as succeeded, so that the next retry skips it")
				}
				return nil
			}
			kind, ok := w.outcomeCall(c)
			if !ok {
				return nil
			}
			if kind == "Cmd.Execute" {
				return &Action{Inline: true}
			}
			fresh := x.Get("must") != ""
			runs := fresh || k.mask != "skip"
			at := w.FuncKey(x.Fn) + ": " + kind
			r.Ok(rule, at, w.InstrPos(x.In), "")
			if !runs {
				x.Report(at, "a command which its mask marks as skipped can still run (%s)", name)
			}
			if !fresh && kind == "script process" && k.mask == "exec" && k.fn == "skip" && x.Get("ran") != "" {
				x.Report(at+" after flow", "the script of a command whose mask skips it after its sub-flow can still run (%s)", name)
			}
			x.Set("ran", x.Get("ran")+"|"+kind)
			if kind == "script process" {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@runerr")}}, {Results: []*AV{avNil}}}}
			}
			return boolAlts(x, c, nil, nil, nil, kind)
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			if x.Get("must") == "" && k.mask == "skip" {
				return
			}
			// something that has a body reports success: the body ran
			ty := x.Fact("@ty")
			if x.Get("ran") == "" && x.St.Eval(o.Results[1]) != "false" && w.c03HasBody(ty) && x.Get("nobody") == "" {
				x.Report(w.FuncKey(root)+" not run "+ty, "a command whose mask does not skip it can report success without its body having run (%s, kind %s)", name, ty)
			}
		}
		params := map[string]*AV{strings.TrimPrefix(mk, "p:"): avNonNil(mk), "allowError": avFalse}
		if k.mask == "none" {
			params[strings.TrimPrefix(mk, "p:")] = avNil
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, params, nil)
		r.Engine(e)
	}
	r.Floor(rule, 5)
	r.Assume = append(r.Assume, "an empty command line, a command without executable content and a break-point choice of the user are the only reasons for a body not to run")
}

// kinds which always have a body: in-process functions and flows
func (w *World) c03HasBody(ty string) bool {
	for _, n := range []string{"CmdTypePower", "CmdTypeNormal", "CmdTypeFlow", "CmdTypeAdHotFlow"} {
		if v := w.constOpt("core/model", n); v != "" && ty == "s:"+v {
			return true
		}
	}
	return false
}

func (w *World) constOpt(pkg, name string) string {
	if p := w.SSAPkgs[w.pkgPath(pkg)]; p != nil {
		if c, ok := p.Members[name].(*ssa.NamedConst); ok {
			return constantStringVal(c.Value)
		}
	}
	return ""
}

func paramNameOf(f *ssa.Function, is func(types.Type) bool) string {
	for _, p := range f.Params {
		if is(p.Type()) {
			return p.Name()
		}
	}
	undecided("%s: expected parameter not found", f)
	return ""
}

// masks travel with the command of the same position, and into sub-flows
func c03Pass(w *World, r *Report) {
	rule := "mask-belongs-to-its-command"
	for _, f := range w.Funcs {
		if !w.inPkg(f, "core/execute") || len(f.Blocks) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(ia.X.Type().String(), "[]*"+w.pkgPath("core/model")+".ExecuteMask") {
				return
			}
			// the same index must select the command, in this function
			same := false
			forEachInstr(f, func(in2 ssa.Instruction) {
				if ib, ok := in2.(*ssa.IndexAddr); ok && w.isFlowCmdsVal(ib.X) && sameIndex(ib.Index, ia.Index) {
					same = true
				}
			})
			if same {
				r.Ok(rule, w.FuncKey(f), w.InstrPos(in), "the mask is selected by the command's own index")
			} else {
				r.Violation(rule, w.FuncKey(f), w.InstrPos(in), "the mask of a command is not selected by the command's own position in the flow", nil)
			}
		})
	}
	// into sub-flows: the masks handed to a nested run are the mask's own sub-masks whenever it has any
	root := w.Method("core/model", "Cmd", "Execute")
	mk := "p:" + paramNameOf(root, func(t types.Type) bool { return w.isNamed(deref(t), "core/model", "ExecuteMask") })
	sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool { return w.callsExecutorExecute(c) }}
	seen := 0
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if ok && w.isNamed(deref(fa.X.Type()), "core/model", "ExecuteMask") && fieldName(fa.X.Type(), fa.Field) == "SubFlow" && x.Val(fa.X).Sym == mk {
			return avNonNil("@submasks")
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if w.callsMethod(c, "core/model", "Blender", "Invoke") {
			return &Action{Opaque: true}
		}
		if w.callsMethod(c, "core/model", "Cmd", "MustExeInExecuted") {
			return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
		}
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "len" && args[0].Sym == "@submasks" {
			return &Action{Alts: []Alt{{Results: []*AV{avInt(2)}}}}
		}
		if w.callsExecutorExecute(c) {
			for i, a := range c.Args {
				if strings.HasSuffix(a.Type().String(), "[]*"+w.pkgPath("core/model")+".ExecuteMask") {
					seen++
					j := i
					if c.IsInvoke() {
						j++
					}
					r.Ok(rule, w.FuncKey(x.Fn)+" sub-flow", w.InstrPos(x.In), "")
					if args[j].Sym != "@submasks" {
						x.Report(w.FuncKey(x.Fn)+" sub-flow", "the masks of a recorded sub-flow do not reach the commands of the sub-flow")
					}
				}
			}
			return boolAlts(x, c, nil, nil, nil, "Executor.Execute")
		}
		return nil
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, map[string]*AV{strings.TrimPrefix(mk, "p:"): avNonNil(mk)}, nil)
	r.Engine(e)
	r.Floor(rule, 2)
}

func sameIndex(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	// loads of the same variable
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL && ua.X == ub.X
}

// a retry command returns the recorded flow together with that same session's masks
func c03Source(w *World, r *Report) {
	rule := "retry-runs-the-recorded-flow"
	gen := w.Method("core/model", "ExecutedFlow", "GenExecMasks")
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || f == gen {
			continue
		}
		f := f
		calls := false
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == gen {
				calls = true
			}
		})
		if !calls {
			continue
		}
		rs := f.Signature.Results()
		mi, fi := -1, -1
		for i := 0; i < rs.Len(); i++ {
			if strings.HasSuffix(rs.At(i).Type().String(), "ExecuteMask") {
				mi = i
			}
			if rs.At(i).Type().String() == "[]string" {
				fi = i
			}
		}
		if mi < 0 || fi < 0 {
			continue
		}
		sp := &Spec{Name: rule, Inline: func(g *ssa.Function) bool { return false }}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if callee == gen {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@masks of " + args[0].Sym)}}}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || x.St.Eval(o.Results[len(o.Results)-1]) == "false" {
				return
			}
			m := o.Results[mi]
			r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "masks and flow come from one recorded session")
			if m.K != kSym || !strings.HasPrefix(m.Sym, "@masks of ") {
				x.Report(w.FuncKey(f)+" masks", "a retry can run without the masks of the session it repeats")
				return
			}
			from := strings.TrimPrefix(m.Sym, "@masks of ")
			// the flow: a slice whose only element is <from>.Flow
			fl := o.Results[fi]
			good := false
			for k, v := range x.St.heap {
				if strings.HasPrefix(k, fl.Sym) || strings.HasPrefix(fl.Sym, strings.SplitN(k, "[", 2)[0]) {
					if (v.K == kSym || v.K == kAddr) && v.Sym == from+".Flow" {
						good = true
					}
				}
			}
			if !good {
				x.Report(w.FuncKey(f)+" flow", "the flow a retry runs is not the flow of the session whose masks it uses")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}

// fresh masks execute
func c03Fresh(w *World, r *Report) {
	rule := "a-fresh-mask-executes"
	f := w.Fn("core/model", "NewExecuteMask")
	exec := map[string]bool{}
	forEachInstr(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			for _, n := range []string{"ExecPolicy", "FileNFlowExecPolicy"} {
				if w.isField(s.Addr, "core/model", "ExecuteMask", n) {
					if c, ok := s.Val.(*ssa.Const); ok && constantStringVal(c) == w.constStr("core/model", "ExecPolicyExec") {
						exec[n] = true
					}
				}
			}
		}
	})
	for _, n := range []string{"ExecPolicy", "FileNFlowExecPolicy"} {
		if exec[n] {
			r.Ok(rule, w.FuncKey(f)+" "+n, w.Pos(f.Pos()), "")
		} else {
			r.Violation(rule, w.FuncKey(f)+" "+n, w.Pos(f.Pos()), "a fresh mask does not let the command run", nil)
		}
	}
	_ = fmt.Sprint
}
