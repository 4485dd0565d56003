package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: nothing of a line or flow runs unless all of it was understood.

func init() {
	register(&Prop{
		ID: "C16", Title: "Nothing of a flow runs unless every word of it was understood",
		Explain: "The words of a line are tracked as resources through the parser: on every path each list of words and each settings map that a parser function is given, or that another gives back, is handed on, kept for the next turn, known to be empty, or reported as an error. The error stays in the command's parse result, and no command starts before all parse results were found clean (path-sensitive, top-level lines and nested flows).",
		Assume: []string{
			"text libraries (shellwords, strings) split texts as documented",
		},
		Run: runC16,
	})
}

func runC16(w *World, r *Report) {
	consumers := c02Consumers(w, r)
	gateChecks(w, r, consumers, "parse-check-gates-the-first-command", "parse")
	c02ParseResult(w, r)
	c02TailMode(w, r)
	c16Carry(w, r)
	c16Kept(w, r)
	c16OneCommand(w, r)
	c16Split(w, r)
	c16Empty(w, r)
}

func c16Carry(w *World, r *Report) {
	rule := "no-word-is-dropped"
	c := w.carry()
	run := func(f *ssa.Function) {
		k := c.analyse(f)
		key := w.FuncKey(f)
		r.Funcs[key] = true
		if k.Over {
			r.Violation(rule, key+": undecided", w.Pos(f.Pos()), "the function has too many paths to be decided", nil)
			return
		}
		for _, d := range k.Drops {
			r.Violation(rule, key+": "+d.What, w.InstrPos(d.At), "on this path "+d.What+" is neither handed on, nor kept, nor known to be empty, nor reported", d.Trace)
		}
		if len(k.Drops) == 0 {
			r.Ok(rule, key, w.Pos(f.Pos()), fmt.Sprintf("%d path segments, %d lists and words followed, %d errors of inner readers", k.Paths, k.Words, len(k.Errors)))
		}
	}
	for _, f := range c.targets("core/parser") {
		run(f)
	}
	for _, f := range w.Funcs {
		if f.Parent() == nil || !w.inPkg(f, "core/parser") || len(f.Blocks) == 0 {
			continue
		}
		n, drops := c.closure(f)
		for _, d := range drops {
			r.Violation(rule, w.FuncKey(f)+": "+d.What, w.InstrPos(d.At), "it says that nothing is left although no list is known to be at its end", nil)
		}
		if n > 0 && len(drops) == 0 {
			r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "gives nothing back only at the end of a list")
		}
	}
	for _, f := range c.filters("core/execute") {
		run(f)
	}
	r.Floor(rule, 6)
}

// filters: functions which build a list of commands in a loop
func (c *carry) filters(pkg string) []*ssa.Function {
	out := map[*ssa.Function]bool{}
	for _, f := range c.w.Funcs {
		if !c.w.inPkg(f, pkg) || f.Parent() != nil || len(f.Blocks) == 0 || !c.w.InModule(f) {
			continue
		}
		hit := false
		forEachInstr(f, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			b, ok := cl.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || !strings.HasSuffix(cl.Type().String(), "core/model.ParsedCmd") {
				return
			}
			if innermostLoop(cl.Block()) != nil {
				hit = true
			}
		})
		if hit {
			out[f] = true
		}
	}
	return sortFns(c.w, out)
}

// c16Kept: what is written into a parse result is the parser's error or another result's
func c16Kept(w *World, r *Report) {
	rule := "parse-error-is-kept"
	for _, f := range w.Funcs {
		if !w.InModule(f) || len(f.Blocks) == 0 {
			continue
		}
		f := f
		forEachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if w.isField(st.Addr, "core/model", "ParseResult", "Error") {
				k := w.FuncKey(f)
				if bad := c16ErrSource(w, st.Val, 0); bad != "" {
					r.Violation(rule, k+": error", w.InstrPos(st), "the parse error is set to "+bad, nil)
				} else {
					r.Ok(rule, k+": error", w.InstrPos(st), "the parser's error, or that of another result")
				}
			}
			if w.isField(st.Addr, "core/model", "ParseResult", "Input") {
				// who fills a parse result also says whether it failed
				base := st.Addr.(*ssa.FieldAddr).X
				found := false
				forEachInstr(f, func(in2 ssa.Instruction) {
					s2, ok := in2.(*ssa.Store)
					if ok && w.isField(s2.Addr, "core/model", "ParseResult", "Error") && sameExpr(s2.Addr.(*ssa.FieldAddr).X, base) {
						found = true
					}
				})
				if !found {
					r.Violation(rule, w.FuncKey(f)+": result", w.InstrPos(st), "a parse result is made without saying whether the input was understood", nil)
				}
			}
		})
	}
	r.Floor(rule, 2)
}

func c16ErrSource(w *World, v ssa.Value, depth int) string {
	if depth > 6 {
		return ""
	}
	switch y := v.(type) {
	case *ssa.Const:
		return "nothing"
	case *ssa.Phi:
		for _, e := range y.Edges {
			if s := c16ErrSource(w, e, depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}

// c16OneCommand: a text is used as a command only if it parsed as exactly one, without error
func c16OneCommand(w *World, r *Report) {
	rule := "single-command-texts"
	f := w.Method("core/model", "Cli", "ParseCmd")
	n := 0
	sp := &Spec{Name: rule}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if w.callsMethod(c, "core/model", "ParsedCmds", "FirstErr") {
			return &Action{Alts: []Alt{{Results: []*AV{label("firsterr")}}}}
		}
		return nil
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && w.isFlowCmds(u.X) {
			return label("cmds")
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || x.St.Eval(o.Results[1]) == "false" {
			return
		}
		n++
		if x.Fact("@cmds%len") != "i:1" {
			x.Report(w.FuncKey(f)+" count", "a text that isn't exactly one command can be taken as a command")
		}
		if x.Fact("@firsterr") != "nil" {
			x.Report(w.FuncKey(f)+" error", "a text with a parse error can be taken as a command")
		}
		if x.Get("x") == "" && len(o.Results) == 2 {
			r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "success only with one command and no error")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	// with panicOnError it never says no
	sp2 := &Spec{Name: rule, Call: sp.Call}
	sp2.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind == exReturn && x.St.Eval(o.Results[1]) != "true" {
			x.Report(w.FuncKey(f)+" panic", "a text that can't be parsed does not stop the caller which asked for that")
		}
	}
	e2 := NewEngine(w, r, rule, sp2)
	e2.Run(f, map[string]*AV{f.Params[1].Name(): avTrue}, nil)
	r.Engine(e2)
	// callers look at the answer
	for _, g := range w.Funcs {
		if !w.InModule(g) || len(g.Blocks) == 0 {
			continue
		}
		g := g
		forEachInstr(g, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok || !w.callsMethod(&cl.Call, "core/model", "Cli", "ParseCmd") {
				return
			}
			k := w.FuncKey(g) + ": ParseCmd"
			if c, ok := cl.Call.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
				r.Ok(rule, k, w.InstrPos(cl), "refuses by itself")
				return
			}
			var cmd, okv *ssa.Extract
			for _, u := range *cl.Referrers() {
				if e, ok := u.(*ssa.Extract); ok {
					if e.Index == 0 {
						cmd = e
					} else {
						okv = e
					}
				}
			}
			if cmd == nil {
				return
			}
			if okv == nil {
				r.Violation(rule, k, w.InstrPos(cl), "whether the text was understood is not looked at", nil)
				return
			}
			for _, u := range *cmd.Referrers() {
				if _, isRet := u.(*ssa.Return); isRet {
					continue
				}
				if !knownTrueAt(okv, u.Block()) {
					r.Violation(rule, k, w.InstrPos(u), "the command of a text is used although the text may not have been understood", nil)
					return
				}
			}
			r.Ok(rule, k, w.InstrPos(cl), "used only if it was understood")
		})
	}
	// the first error is an error of any of the commands
	fe := w.Method("core/model", "ParsedCmds", "FirstErr")
	loops := 0
	sp3 := &Spec{Name: rule}
	sp3.Value = func(x *Ctx, v ssa.Value) *AV {
		u, ok := v.(*ssa.UnOp)
		if ok && u.Op == token.MUL && w.isField(u.X, "core/model", "ParseResult", "Error") {
			return label("perr")
		}
		return nil
	}
	sp3.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		loops++
		lr := loopRange(to)
		if lr == nil || lr.Start != nil || !w.isFlowCmdsVal(lr.Over) {
			x.Report(w.FuncKey(fe)+" loop", "not every command is asked for its parse error")
		}
		if x.Fact("@perr") != "nil" {
			x.Report(w.FuncKey(fe)+" next", "a command with a parse error is passed over")
		}
		delete(x.St.facts, "@perr")
	}
	sp3.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		if x.St.Eval(o.Results[0]) == "nil" {
			for _, n := range x.St.facts["@perr"].Ne {
				if n == "nil" {
					x.Report(w.FuncKey(fe)+" return", "a parse error was found, but none is reported")
				}
			}
		}
	}
	e3 := NewEngine(w, r, rule, sp3)
	e3.Run(fe, nil, nil)
	r.Engine(e3)
	if loops > 0 {
		r.Ok(rule, w.FuncKey(fe), w.Pos(fe.Pos()), "asks every command")
	}
	r.Floor(rule, 3)
}

func knownTrueAt(v ssa.Value, b *ssa.BasicBlock) bool { return knownTrue(v, b) }

// c16Split: a text that can't be split into words is refused
func c16Split(w *World, r *Report) {
	rule := "unsplittable-texts-are-refused"
	for _, f := range w.Funcs {
		if !w.InModule(f) || len(f.Blocks) == 0 {
			continue
		}
		f := f
		forEachInstr(f, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			o := calleeObj(&cl.Call)
			if o == nil || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), "go-shellwords") || !strings.HasPrefix(o.Name(), "Parse") {
				return
			}
			k := w.FuncKey(f)
			var errv ssa.Value
			for _, u := range *cl.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && isErrorType(e.Type()) {
					errv = e
				}
			}
			if errv == nil {
				r.Violation(rule, k, w.InstrPos(cl), "whether the text could be split is not looked at", nil)
				return
			}
			good := true
			forEachInstr(f, func(in2 ssa.Instruction) {
				ret, ok := in2.(*ssa.Return)
				if !ok || !in.Block().Dominates(ret.Block()) {
					return
				}
				for _, v := range ret.Results {
					if isErrorType(v.Type()) {
						if c, ok := v.(*ssa.Const); !ok || c.Value != nil {
							return
						}
					}
				}
				if !nilAt(errv, ret.Block()) {
					good = false
				}
			})
			if good {
				r.Ok(rule, k, w.InstrPos(cl), "gives words only if the text could be split")
			} else {
				r.Violation(rule, k, w.InstrPos(cl), "words can be given back although the text could not be split", nil)
			}
		})
	}
	r.Floor(rule, 1)
}

// nilAt: on every way to b the value was compared with nil and equal
func nilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || c.X != v && c.Y != v {
			continue
		}
		o := c.Y
		if c.Y == v {
			o = c.X
		}
		n, ok := o.(*ssa.Const)
		if !ok || n.Value != nil {
			continue
		}
		if c.Op == token.EQL && p.Succs[0] == d || c.Op == token.NEQ && p.Succs[1] == d {
			return true
		}
	}
	return false
}

// c16Empty: only a command without any input and without error counts as empty
func c16Empty(w *World, r *Report) {
	rule := "empty-means-no-words"
	f := w.Method("core/model", "ParsedCmd", "IsAllEmptySegments")
	n := 0
	sp := &Spec{Name: rule}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		u, ok := v.(*ssa.UnOp)
		if ok && u.Op == token.MUL && w.isField(u.X, "core/model", "ParseResult", "Error") {
			return label("perr")
		}
		if ok && u.Op == token.MUL && w.isField(u.X, "core/model", "ParseResult", "Input") {
			return label("words")
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || x.St.Eval(o.Results[0]) == "false" {
			return
		}
		n++
		if x.Fact("@words%len") != "i:0" {
			x.Report(w.FuncKey(f)+" input", "a command that was given words can count as empty, and is taken off the line")
		}
		if x.Fact("@perr") != "nil" {
			x.Report(w.FuncKey(f)+" error", "a command with a parse error can count as empty, and is taken off the line")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	if n > 0 {
		r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "no input and no error")
	}
	r.Floor(rule, 1)
}
