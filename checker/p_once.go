package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: a flow runs each of its commands once, in the order they are written.

func init() {
	register(&Prop{
		ID: "C19", Title: "A flow runs each of its commands once, in order",
		Explain: "The way of the commands from the parsed line to their bodies is followed with one arbitrary command (one turn of each loop) singled out: how often it gets into the next list, which command a turn of the executor runs, how often a body, script or nested flow is run per execution, and what index each command hands back.",
		Run:     runC19,
	})
}

func runC19(w *World, r *Report) {
	c19Parts(w, r)
	c19Parser(w, r)
	c19Empty(w, r)
	c19Blender(w, r)
	c19Rules(w, r)
	c19Front(w, r)
	c19Changes(w, r)
	c19Run(w, r)
	c19Turns(w, r)
	c19Cmd(w, r)
	c19Bodies(w, r)
	c19Power(w, r)
}

// isCmdList: a list of parsed commands
func (w *World) isCmdList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && w.isNamed(s.Elem(), "core/model", "ParsedCmd") && !isPtr(s.Elem())
}

// fieldRead: the name of the field v is, or is read from
func fieldRead(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldName(v.X.Type(), v.Field)
	case *ssa.Field:
		return fieldName(v.X.Type(), v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return fieldRead(v.X)
		}
	}
	return ""
}

// lenOf: the argument if the call asks for a length
func lenOf(c *ssa.CallCommon) ssa.Value {
	if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Args[0]
	}
	return nil
}

// truth of a label that was tested
func (x *Ctx) truth(sym string) string {
	f := x.St.facts[sym]
	switch {
	case f.Eq != "":
		return f.Eq
	case hasNe(f, "true"):
		return "false"
	case hasNe(f, "false"):
		return "true"
	}
	return ""
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// sameList: two values that are the same list (loads of the same field count as such)
func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if c, ok := a.(*ssa.ChangeType); ok {
		return sameList(c.X, b)
	}
	if c, ok := b.(*ssa.ChangeType); ok {
		return sameList(a, c.X)
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok && ok2 && f.Field == g.Field && (f.X == g.X || sameList(f.X, g.X))
}

// turn: a loop over a whole list, with the index its body uses
type turn struct {
	h    *ssa.BasicBlock
	idx  ssa.Value
	over ssa.Value
}

// turnsOver: the loops of f that visit each element of a list of the type, in order
func turnsOver(f *ssa.Function, ofType func(types.Type) bool) (out []turn) {
	forEachLoop(f, func(h *ssa.BasicBlock) {
		lr := loopRange(h)
		if lr == nil || lr.IsMap || lr.Start != nil || !ofType(lr.Over.Type()) {
			return
		}
		for b := range loopBlocks(h) {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if c, ok := iff.Cond.(*ssa.BinOp); ok && c.Op == token.LSS && lenArg(c.Y) == lr.Over && lr.Over != nil {
				out = append(out, turn{h, c.X, lr.Over})
			}
		}
	})
	return
}

// elem: v is the element of the list the turn is at
func (t *turn) elem(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	return ok && ia.Index == t.idx && sameList(ia.X, t.over)
}

func isAppend(in ssa.Instruction) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return nil
	}
	return c
}

// moreThan counts up to two
func (x *Ctx) count(k string) {
	switch x.Get(k) {
	case "":
		x.Set(k, "1")
	default:
		x.Set(k, "2")
	}
}

func (x *Ctx) forgetFacts(syms ...string) {
	for _, s := range syms {
		x.St.define(s)
	}
}

// ---- the parts of a line

func c19Parts(w *World, r *Report) {
	rule := "each-part-of-the-line-is-one-part"
	f := w.MethodOpt("core/parser", "SequenceParser", "Parse")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	isWords := func(t types.Type) bool { return t.String() == "[]string" }
	ts := turnsOver(f, isWords)
	if len(ts) != 1 {
		return
	}
	t := ts[0]
	if at := leavesEarly(t.h); at != nil {
		r.Violation(rule, k, w.InstrPos(at), "the words of a line after some are left out", nil)
	}
	sp := &Spec{Name: rule, MaxDisj: 60}
	sp.Track = func(s string) bool { return s == "@fresh" || s == "@acc" || s == "@handed" }
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if t.elem(v) {
			return avSym("@word")
		}
		switch v := v.(type) {
		case *ssa.Slice:
			if isWords(v.Type()) {
				if al, ok := v.X.(*ssa.Alloc); ok {
					if a, ok := deref(al.Type()).Underlying().(*types.Array); ok && a.Len() == 0 {
						return avSym("@fresh")
					}
				}
				// a cut of a list still is the list that was handed over
				if a := x.Val(v.X); a.Key() == "$@acc" || a.Key() == "$@fresh" {
					return a
				}
			}
		case *ssa.BinOp:
			if v.Op == token.EQL || v.Op == token.NEQ {
				a, b := v.X, v.Y
				if fieldRead(a) == "sep" {
					a, b = b, a
				}
				if fieldRead(b) == "sep" && x.Val(a).Key() == "$@word" {
					return &AV{K: kPred, Sym: "@issep", C: "true", Neg: v.Op == token.NEQ}
				}
			}
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if fullName(c) == "strings.TrimSpace" && len(args) == 1 && args[0].Key() == "$@word" {
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@word")}}}}
		}
		a := isAppend(x.In)
		if a == nil {
			return nil
		}
		switch a.Type().String() {
		case "[][]string":
			for _, e := range elemsOf(a.Call.Args[1]) {
				x.count("part")
				switch x.Val(e).Key() {
				case "$@acc":
					x.Set("handed", "1")
				case "$@fresh":
				default:
					if !isWords(e.Type()) || x.Val(e).K == kConst {
						break
					}
					x.Set("else", "1")
				}
			}
		case "[]string":
			if x.Get("handed") != "" && args[0].Key() == "$@acc" {
				x.Report(k, "the words of one part of the line get into the part before it too")
			}
			x.Set("handed", "")
			for _, e := range elemsOf(a.Call.Args[1]) {
				if x.Val(e).Key() == "$@word" {
					x.count("word")
				}
			}
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@acc")}}}}
		}
		return nil
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if to != t.h {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		switch x.truth("@issep") {
		case "true":
			if x.Get("part") != "1" || x.Get("word") != "" {
				x.Report(k, "on this path a mark between two commands does not end the one before it, and only that")
			}
		case "false":
			if x.Get("part") != "" || x.Get("word") != "1" {
				x.Report(k, "on this path a word does not become one word of the command it stands at")
			}
		}
		x.Set("part", "")
		x.Set("word", "")
		x.forgetFacts("@issep", "@word")
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind == exReturn && x.Get("part") != "1" {
			x.Report(k, "on this path the last part of the line becomes %s", manyOf(x.Get("part")))
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
}

// ---- the parser

func c19Parser(w *World, r *Report) {
	rule := "one-command-per-part-of-the-line"
	f := w.MethodOpt("core/parser", "Parser", "Parse")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	ts := turnsOver(f, func(t types.Type) bool { return t.String() == "[][]string" })
	if len(ts) != 1 {
		return
	}
	t := ts[0]
	if at := leavesEarly(t.h); at != nil {
		r.Violation(rule, k, w.InstrPos(at), "the parts of a line after some are not taken over as commands", nil)
	}
	parses := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/parser", "CmdParser", "Parse") }
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if t.elem(v) {
			return avSym("@part")
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if parses(c) {
			if len(args) > 0 && args[len(args)-1].Key() == "$@part" {
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@cmd")}}}}
			}
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@other")}}}}
		}
		return nil
	}
	in := loopBlocks(t.h)
	sp.Instr = func(x *Ctx, ins ssa.Instruction) {
		c := isAppend(ins)
		if c == nil || !w.isCmdList(c.Type()) || !in[c.Block()] {
			return
		}
		for _, e := range elemsOf(c.Call.Args[1]) {
			if x.Val(e).Key() == "$@cmd" {
				x.count("own")
			} else {
				x.Report(k, "a part of the line becomes something else than the command that stands there")
			}
		}
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if to != t.h {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		if x.Get("own") != "1" {
			x.Report(k, "on this path a part of the line becomes %s", manyOf(x.Get("own")))
		}
		x.Set("own", "")
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
}

func manyOf(n string) string {
	switch n {
	case "":
		return "no command"
	case "1":
		return "one command"
	}
	return "more than one command"
}

// ---- the empty ones

func c19Empty(w *World, r *Report) {
	rule := "only-empty-commands-are-taken-out"
	f := w.FnOpt("core/execute", "removeEmptyCmds")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	ts := turnsOver(f, w.isCmdList)
	if len(ts) != 1 {
		return
	}
	t := ts[0]
	if at := leavesEarly(t.h); at != nil {
		r.Violation(rule, k, w.InstrPos(at), "the commands after some are left out of the flow", nil)
	}
	in := loopBlocks(t.h)
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if t.elem(v) {
			return avSym("@cmd")
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if w.callsMethod(c, "core/model", "ParsedCmd", "IsAllEmptySegments") && len(args) == 1 && args[0].Key() == "$@cmd" {
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("empty", "yes") }, Note: "the command is empty"},
				{Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("empty", "no") }, Note: "the command is not empty"},
			}}
		}
		return nil
	}
	stored := false
	sp.Instr = func(x *Ctx, ins ssa.Instruction) {
		if st, ok := ins.(*ssa.Store); ok && w.isField(st.Addr, "core/model", "ParsedCmds", "Cmds") && !in[st.Block()] {
			stored = true
		}
		c := isAppend(ins)
		if c == nil || !w.isCmdList(c.Type()) || !in[c.Block()] {
			return
		}
		for _, e := range elemsOf(c.Call.Args[1]) {
			if x.Val(e).Key() == "$@cmd" {
				x.count("own")
			} else {
				x.Report(k, "a command that is not of the line gets into the flow")
			}
		}
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if to != t.h {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		switch {
		case x.Get("own") == "2":
			x.Report(k, "on this path a command gets into the flow twice")
		case x.Get("own") == "" && x.Get("empty") != "yes":
			x.Report(k, "on this path a command that is not empty is taken out")
		}
		x.Set("own", "")
		x.Set("empty", "")
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	_ = stored
}

// ---- the blender

func c19Blender(w *World, r *Report) {
	rule := "replacing-changes-the-named-commands-only"
	f := w.MethodOpt("core/model", "Blender", "Invoke")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	ts := turnsOver(f, w.isCmdList)
	if len(ts) != 1 {
		return
	}
	t := ts[0]
	if at := leavesEarly(t.h); at != nil {
		r.Violation(rule, k, w.InstrPos(at), "the commands after some are left out of the flow", nil)
	}
	in := loopBlocks(t.h)
	// the lists the rules hand out are named; the result is what is put into the flow
	isResult := map[ssa.Value]bool{}
	forEachInstr(f, func(ins ssa.Instruction) {
		if st, ok := ins.(*ssa.Store); ok && w.isField(st.Addr, "core/model", "ParsedCmds", "Cmds") && !in[st.Block()] {
			for v := range appendChain(st.Val) {
				isResult[v] = true
			}
		}
	})
	if len(isResult) == 0 {
		r.Violation(rule, k, w.Pos(f.Pos()), "the commands that were put together are not put into the flow", nil)
		return
	}
	sp := &Spec{Name: rule, MaxDisj: 60}
	sp.Track = func(sym string) bool { return sym == "@same" || sym == "@new" }
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if t.elem(v) {
			return avSym("@cmd")
		}
		switch v := v.(type) {
		case *ssa.Slice:
			if !w.isCmdList(v.Type()) {
				return nil
			}
			if es := elemsOf(v); len(es) == 1 && es[0] != ssa.Value(v) && x.Val(es[0]).Key() == "$@cmd" {
				return avSym("@same")
			}
		case *ssa.BinOp:
			return cmpConsts(x, v)
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if l := lenOf(c); l != nil && w.isCmdList(l.Type()) {
			switch x.Val(l).Key() {
			case "$@same", "$@new":
				return &Action{Alts: []Alt{{Results: []*AV{avInt(1)}}}}
			}
			return nil
		}
		o := calleeObj(c)
		switch {
		case o != nil && o.Name() == "Invoke" && c.IsInvoke() && w.isNamed(c.Value.Type(), "core/model", "BlenderInvoker"):
			if args[len(args)-1].Key() != "$@cmd" {
				x.Report(k, "a replacing rule is asked about another command than the one whose turn it is")
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avSym("@same"), avFalse, avInt(0), avFalse}, Note: "the rule does not name the command"},
				{Results: []*AV{avSym("@new"), avTrue, avInt(-1), avTrue}, Apply: func(x *Ctx) { x.count("matched") }, Note: "the rule (used for the last time) names the command"},
				{Results: []*AV{avSym("@new"), avTrue, avInt(-1), avFalse}, Apply: func(x *Ctx) { x.count("matched") }, Note: "the rule names the command"},
			}}
		case w.callsMethod(c, "core/model", "Cmd", "executeByType"):
			return &Action{Alts: []Alt{
				{Results: []*AV{avUnknown, avTrue}, Apply: func(x *Ctx) { x.count("rule") }},
				{Results: []*AV{avUnknown, avFalse}, Apply: func(x *Ctx) { x.count("rule") }},
			}}
		case w.callsMethod(c, "core/model", "Cmd", "IsBlenderCmd"):
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("isrule", "yes") }},
				{Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("isrule", "no") }},
			}}
		}
		return nil
	}
	sp.Instr = func(x *Ctx, ins ssa.Instruction) {
		c := isAppend(ins)
		if c == nil || !w.isCmdList(c.Type()) || !in[c.Block()] || !isResult[c] {
			return
		}
		es := elemsOf(c.Call.Args[1])
		for _, e := range es {
			switch x.Val(e).Key() {
			case "$@cmd", "$@same":
				x.count("own")
			case "$@new":
				x.count("new")
			default:
				x.Set("else", "1")
			}
		}
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if to != t.h {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		own, nw := x.Get("own"), x.Get("new")
		switch {
		case x.Get("else") != "":
			x.Report(k, "on this path a command that neither stands there nor is its replacement gets into the flow")
		case x.Get("rule") != "":
			if own != "" || nw != "" {
				x.Report(k, "on this path a command that gives a replacing rule stays in the flow")
			}
			if x.Get("rule") == "2" {
				x.Report(k, "on this path a command that gives a replacing rule is run twice")
			}
		case x.Get("isrule") == "yes":
			x.Report(k, "on this path a command that gives a replacing rule is not run")
		case x.Get("matched") != "":
			if x.Get("matched") == "2" {
				x.Report(k, "on this path more than one replacing rule is used up for one command")
			}
			if own != "" || nw != "1" {
				x.Report(k, "on this path a command that is to be replaced gets into the flow together with its replacement, or neither does")
			}
		default:
			if own != "1" || nw != "" {
				x.Report(k, "on this path a command no rule names becomes %s", manyOf(own))
			}
		}
		for _, s := range []string{"own", "new", "rule", "isrule", "matched", "else"} {
			x.Set(s, "")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
}

// appendChain: the appends a list is put together by
func appendChain(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(v.X)
		case *ssa.Call:
			if isAppend(v) != nil {
				walk(v.Call.Args[0])
			}
		case *ssa.UnOp:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, rf := range *al.Referrers() {
					if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						walk(st.Val)
					}
				}
			}
		}
	}
	walk(v)
	return seen
}

// ---- the replacing rules

func c19Rules(w *World, r *Report) {
	rule := "a-replacing-rule-names-and-counts"
	iface := w.NamedOpt("core/model", "BlenderInvoker")
	if iface == nil {
		return
	}
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, f := range w.Funcs {
		rc := f.Signature.Recv()
		if f.Name() != "Invoke" || rc == nil || f.Synthetic != "" || !types.Implements(rc.Type(), it) || len(f.Params) != 2 {
			continue
		}
		n := namedOf(rc.Type())
		if n == nil {
			continue
		}
		replaces := n.Obj().Name() == "BlenderInvokerReplace"
		k := w.FuncKey(f)
		r.Funcs[k] = true
		for _, cnt := range []int{1, -1} {
			cnt := cnt
			sp := &Spec{Name: rule, MaxDisj: 30}
			sp.Inline = func(g *ssa.Function) bool { return false }
			sp.Value = func(x *Ctx, v ssa.Value) *AV {
				if fieldRead(v) == "Cmd" && w.isPtrTo(v.Type(), "core/model", "CmdTree") {
					for m := range madeOf(v) {
						if n := fieldRead(m); n == "src" || n == "target" {
							return avSym("@node.named")
						}
						if m == ssa.Value(f.Params[1]) {
							return avSym("@node.cmd")
						}
					}
				}
				switch v := v.(type) {
				case *ssa.UnOp:
					if fieldRead(v) == "cnt" && isIntType(v.Type()) {
						if c := x.Get("cnt"); c != "" {
							return &AV{K: kConst, C: c}
						}
						return avInt(cnt)
					}
				case *ssa.Field:
					if fieldRead(v) == "cnt" && isIntType(v.Type()) {
						return avInt(cnt)
					}
				case *ssa.BinOp:
					if v.Op == token.SUB || v.Op == token.ADD {
						a, b := x.Val(v.X), x.Val(v.Y)
						i, ok := intOf(a)
						j, ok2 := intOf(b)
						if ok && ok2 {
							if v.Op == token.SUB {
								return avInt(i - j)
							}
							return avInt(i + j)
						}
						return nil
					}
					if v.Op == token.EQL || v.Op == token.NEQ {
						a, b := x.Val(v.X), x.Val(v.Y)
						if a.Key() == "$@node.cmd" && b.Key() == "$@node.named" || b.Key() == "$@node.cmd" && a.Key() == "$@node.named" {
							return &AV{K: kPred, Sym: "@match", C: "true", Neg: v.Op == token.NEQ}
						}
					}
					return cmpConsts(x, v)
				case *ssa.Slice:
					if w.isCmdList(v.Type()) {
						es := elemsOf(v)
						if len(es) == 1 && es[0] != ssa.Value(v) {
							switch {
							case x.Val(es[0]).Key() == "$@cmd":
								return avSym("@same")
							case fieldRead(es[0]) == "dest":
								return avSym("@dest")
							}
						}
						return avSym("@list")
					}
				}
				return nil
			}
			sp.Instr = func(x *Ctx, in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && isIntType(st.Val.Type()) && fieldRead(st.Addr) == "cnt" {
					if i, ok := intOf(x.Val(st.Val)); ok {
						x.Set("cnt", fmt.Sprintf("i:%d", i))
					}
				}
			}
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if w.callsMethod(c, "core/model", "ParsedCmd", "LastCmdNode") {
					if args[0].Key() == "$@cmd" {
						return &Action{Alts: []Alt{{Results: []*AV{avSym("@node.cmd")}}}}
					}
					if n := fieldRead(c.Args[0]); n == "src" || n == "target" {
						return &Action{Alts: []Alt{{Results: []*AV{avSym("@node.named")}}}}
					}
					return &Action{Alts: []Alt{{Results: []*AV{avSym("@node.other")}}}}
				}
				return nil
			}
			sp.Exit = func(x *Ctx, o *Outcome) {
				if o.Kind != exReturn || len(o.Results) != 4 {
					return
				}
				list, del, delta, fin := o.Results[0], x.St.Eval(o.Results[1]), o.Results[2], x.St.Eval(o.Results[3])
				switch x.truth("@match") {
				case "true":
					if !replaces {
						return
					}
					r.Ok(rule, k, w.Pos(f.Pos()), "")
					if list.Key() == "$@same" || list.Key() == "$@list" || list.K == kConst {
						x.Report(k, "a named command is not replaced by the one command that was given for it")
					}
					if del == "false" {
						x.Report(k, "a replaced command is reported as still there")
					}
					if cnt == 1 && fin == "false" {
						x.Report(k, "a rule for one command goes on after it was used")
					}
					if cnt < 0 && fin == "true" {
						x.Report(k, "a rule for all commands ends after the first one")
					}
				case "false":
					r.Ok(rule, k, w.Pos(f.Pos()), "")
					if list.Key() == "$@dest" || list.Key() == "$@list" || list.K == kConst {
						x.Report(k, "a command the rule does not name is changed")
					}
					if del == "true" || fin == "true" || delta.K == kConst && delta.C != "i:0" {
						x.Report(k, "a rule counts as used by a command it does not name")
					}
				default:
					if !replaces {
						return
					}
					x.Report(k, "whether the rule names the command is not looked at")
				}
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(f, map[string]*AV{f.Params[1].Name(): avSym("@cmd")}, nil)
			r.Engine(e)
		}
	}
	// what the commands ask for
	if add := w.MethodOpt("core/model", "Blender", "AddReplace"); add != nil {
		for name, want := range map[string]int64{"BlenderReplaceOnce": 1, "BlenderReplaceForAll": -1} {
			f := w.FnOpt("mods/builtin", name)
			if f == nil {
				continue
			}
			k := w.FuncKey(f)
			r.Funcs[k] = true
			forEachInstr(f, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || !w.callsMethod(&c.Call, "core/model", "Blender", "AddReplace") || len(c.Call.Args) != 4 {
					return
				}
				r.Ok(rule, k, w.InstrPos(in), "")
				if n, ok := constInt(c.Call.Args[3]); ok && n != want {
					r.Violation(rule, k, w.InstrPos(in), fmt.Sprintf("the rule is made for %d commands instead of %s", n, map[int64]string{1: "one", -1: "all"}[want]), nil)
				}
				for i, arg := range []string{"src", "dest"} {
					others := false
					own := false
					for m := range madeOf(c.Call.Args[1+i]) {
						if s, ok := constString(m); ok {
							if s == arg {
								own = true
							} else if s == "src" || s == "dest" {
								others = true
							}
						}
					}
					if others && !own {
						r.Violation(rule, k, w.InstrPos(in), "the rule takes the replaced command and its replacement the wrong way round", nil)
					}
				}
			})
		}
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func intOf(a *AV) (int, bool) {
	if a == nil || a.K != kConst || !strings.HasPrefix(a.C, "i:") {
		return 0, false
	}
	n := 0
	_, err := fmt.Sscanf(a.C, "i:%d", &n)
	return n, err == nil
}

// ---- the command at the end of a line that is moved to its front

// fromEnd: v is the length of the list less k
func fromEnd(v ssa.Value, isLen func(ssa.Value) bool) (k int64, ok bool) {
	if isLen(v) {
		return 0, true
	}
	b, isB := v.(*ssa.BinOp)
	if !isB || b.Op != token.SUB {
		return 0, false
	}
	n, isC := constInt(b.Y)
	if !isC {
		return 0, false
	}
	k, ok = fromEnd(b.X, isLen)
	return k + n, ok
}

func c19Front(w *World, r *Report) {
	rule := "moving-to-the-front-keeps-the-commands"
	f := w.FnOpt("core/execute", "moveLastPriorityCmdToFront")
	if f == nil || len(f.Params) != 1 {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	sym := func(cut int64) *AV {
		if cut > 8 || cut < 0 {
			return avSym("@cut")
		}
		return avSym(fmt.Sprintf("@line-%d", cut))
	}
	cutOf := func(a *AV) (int64, bool) {
		if a == nil || a.K != kSym || !strings.HasPrefix(a.Sym, "@line-") {
			return 0, false
		}
		var n int64
		_, err := fmt.Sscanf(a.Sym, "@line-%d", &n)
		return n, err == nil
	}
	// position of an index or bound, counted from the end of the whole line
	pos := func(x *Ctx, v ssa.Value) (int64, bool) {
		var list ssa.Value
		n, ok := fromEnd(v, func(l ssa.Value) bool {
			a := lenArg(l)
			if a != nil && w.isCmdList(a.Type()) {
				list = a
				return true
			}
			return false
		})
		if !ok {
			return 0, false
		}
		if list == ssa.Value(f.Params[0]) {
			return n, true
		}
		c, ok := cutOf(x.Val(list))
		return n + c, ok
	}
	sp := &Spec{Name: rule, MaxDisj: 60}
	sp.Track = func(s string) bool {
		return strings.HasPrefix(s, "@line-") || strings.HasPrefix(s, "@moved") || strings.HasPrefix(s, "@at") || strings.HasPrefix(s, "@one") || s == "@cut"
	}
	sp.Inline = func(g *ssa.Function) bool { return g.Parent() == f }
	// a local copy of an element whose fields are set
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if al, ok := st.Addr.(*ssa.Alloc); ok && w.isNamed(st.Val.Type(), "core/model", "ParsedCmd") && !isPtr(st.Val.Type()) {
				x.Set("cell "+al.Name(), x.Val(st.Val).Sym)
			}
		}
	}
	elemAt := func(x *Ctx, v ssa.Value) (int64, bool) {
		u, ok := v.(*ssa.UnOp)
		var addr ssa.Value = v
		if ok && u.Op == token.MUL {
			addr = u.X
		}
		ia, ok := addr.(*ssa.IndexAddr)
		if !ok || !w.isCmdList(ia.X.Type()) {
			return 0, false
		}
		if _, ok := cutOf(x.Val(ia.X)); !ok {
			return 0, false
		}
		return pos(x, ia.Index)
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		switch v := v.(type) {
		case *ssa.Slice:
			if !w.isCmdList(v.Type()) {
				return nil
			}
			if es := elemsOf(v); len(es) == 1 && es[0] != ssa.Value(v) {
				if u, ok := es[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if al, ok := u.X.(*ssa.Alloc); ok && x.Get("cell "+al.Name()) != "" {
						return avSym("@one(" + nameSan.Replace(x.Get("cell "+al.Name())) + ")")
					}
				}
				if a := x.Val(es[0]); a.K == kSym {
					return avSym("@one(" + nameSan.Replace(a.Sym) + ")")
				}
				return avSym("@one()")
			}
			c, ok := cutOf(x.Val(v.X))
			if !ok {
				return nil
			}
			if v.Low != nil {
				if n, ok := constInt(v.Low); !ok || n != 0 {
					return avSym("@cut")
				}
			}
			if v.High == nil {
				return sym(c)
			}
			n, ok := pos(x, v.High)
			if !ok {
				return avSym("@cut")
			}
			if n == c+1 && x.Get("lastempty") == fmt.Sprint(c) {
				x.Set("lastempty", "")
				return sym(c) // an empty one at the end does not count
			}
			return sym(n)
		case *ssa.UnOp:
			if n, ok := elemAt(x, v); ok && v.Op == token.MUL {
				return avSym(fmt.Sprintf("@at%d", n))
			}
		case *ssa.BinOp:
			// the part before the last one has no words: '::'
			l, rr, op := v.X, v.Y, v.Op
			if a := lenArg(l); a != nil && a.Type().String() == "[]string" && fieldRead(a) == "Input" {
				if n, ok := constInt(rr); ok {
					when := op == token.EQL && n == 0 || op == token.LSS && n == 1 || op == token.LEQ && n == 0
					whenNot := op == token.NEQ && n == 0 || op == token.GTR && n == 0 || op == token.GEQ && n == 1
					if when || whenNot {
						var base ssa.Value = a
						for base != nil {
							if p, ok := elemAt(x, base); ok {
								return &AV{K: kPred, Sym: fmt.Sprintf("@nowords%d", p), C: "true", Neg: whenNot}
							}
							switch b := base.(type) {
							case *ssa.UnOp:
								base = b.X
							case *ssa.FieldAddr:
								base = b.X
							case *ssa.Field:
								base = b.X
							default:
								base = nil
							}
						}
					}
				}
			}
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if v := isAppend(x.In); v != nil && w.isCmdList(v.Type()) {
			a, b := args[0], args[1]
			if a.K == kSym && strings.HasPrefix(a.Sym, "@one(") {
				if n, ok := cutOf(b); ok {
					return &Action{Alts: []Alt{{Results: []*AV{avSym(fmt.Sprintf("@moved %s %d", a.Sym, n))}}}}
				}
			}
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@cut")}}}}
		}
		switch {
		case callee == f:
			// the rest of the line, by induction with the same commands
			return &Action{Alts: []Alt{{Results: []*AV{args[0], avUnknown, avUnknown, avUnknown}}}}
		case w.callsMethod(c, "core/model", "ParsedCmd", "IsAllEmptySegments") && len(c.Args) == 1:
			a := args[0]
			var n string
			if a.K == kSym && strings.HasPrefix(a.Sym, "@at") {
				n = a.Sym[3:]
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) {
					// of a list cut at c the last one is the (c+1)th from the end
					if n != "" {
						var p int64
						fmt.Sscanf(n, "%d", &p)
						x.Set("lastempty", fmt.Sprint(p-1))
					}
				}},
				{Results: []*AV{avFalse}},
			}}
		case w.callsMethod(c, "core/model", "ParsedCmd", "IsPriority") && len(c.Args) == 1:
			if args[0].Key() == "$@at1" {
				if f := x.Fact("@priority"); f != "" {
					return &Action{Alts: []Alt{{Results: []*AV{{K: kConst, C: f}}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@priority")}}}}
			}
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || len(o.Results) < 2 {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		a, moved := o.Results[0], x.St.Eval(o.Results[1])
		if n, ok := cutOf(a); ok {
			if n != 0 {
				x.Report(k, "on this path commands at the end of the line are dropped")
			}
			if moved == "true" {
				x.Report(k, "the line is said to be reordered although it was not")
			}
			return
		}
		if a.K != kSym {
			return
		}
		switch {
		case a.Sym == "@cut":
			x.Report(k, "on this path the line is put together from something else than its last command and those before it")
		case strings.HasPrefix(a.Sym, "@moved "):
			fs := strings.Fields(a.Sym)
			if len(fs) != 3 {
				return
			}
			if !strings.Contains(fs[1], "at1") && strings.Contains(fs[1], "at") {
				x.Report(k, "another command than the last one is moved to the front of the line")
			}
			switch fs[2] {
			case "1":
				if x.truth("@priority") == "false" && x.truth("@nowords2") != "true" {
					x.Report(k, "a command is moved to the front although it neither stands after '::' nor is a priority command")
				}
			case "2":
				if x.truth("@nowords2") != "true" {
					x.Report(k, "on this path the command before the last one is dropped although words stand there")
				}
			case "0":
				x.Report(k, "on this path the moved command stays at the end of the line too")
			default:
				x.Report(k, "on this path commands at the end of the line are dropped")
			}
			if moved == "false" {
				x.Report(k, "the line is reordered without saying so")
			}
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, map[string]*AV{f.Params[0].Name(): sym(0)}, nil)
	r.Engine(e)
}

// ---- who changes the list of a flow

func c19Changes(w *World, r *Report) {
	rule := "nothing-else-changes-the-commands-of-a-flow"
	for _, f := range w.Funcs {
		if !w.InModule(f) {
			continue
		}
		top := topFunc(f)
		judged := w.isMethod(top, "core/parser", "Parser", "Parse") || w.isMethod(top, "core/model", "Blender", "Invoke") ||
			top == w.FnOpt("core/execute", "removeEmptyCmds") || w.isMethod(top, "core/execute", "Executor", "execute") ||
			w.isMethod(top, "core/model", "ParsedCmds", "CloneOne")
		forEachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			k := w.FuncKey(f)
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && w.isCmdList(ia.X.Type()) {
				// an element put into the place of another
				if u, ok := ia.X.(*ssa.UnOp); ok && w.isField(u, "core/model", "ParsedCmds", "Cmds") {
					r.Violation(rule, k, w.InstrPos(in), "a command of a flow is replaced by another one", nil)
				}
				return
			}
			if !w.isField(st.Addr, "core/model", "ParsedCmds", "Cmds") || freshParsedCmds(st.Addr) {
				return
			}
			r.Funcs[k] = true
			r.Ok(rule, k, w.InstrPos(in), "")
			if judged {
				// still: what is put in must not be a cut of a list
				if sl, ok := st.Val.(*ssa.Slice); ok && len(elemsOf(sl)) == 1 && elemsOf(sl)[0] == ssa.Value(sl) {
					r.Violation(rule, k, w.InstrPos(in), "commands of the flow are cut off", nil)
				}
				return
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
				// ending the flow: left to power commands, judged by what they hand back
				return
			}
			if w.isMethod(top, "core/model", "ParsedCmds", "RemoveLeadingCmds") {
				return
			}
			if w.inPkg(f, "core/model") || w.inPkg(f, "core/execute") || w.inPkg(f, "core/parser") {
				r.Violation(rule, k, w.InstrPos(in), "the commands of a flow are changed here, outside the parser, the taking out of empty ones and the replacing rules", nil)
			}
		})
	}
	// taking away the first commands is left to what describes them
	if rm := w.MethodOpt("core/model", "ParsedCmds", "RemoveLeadingCmds"); rm != nil {
		for _, c := range w.callInstrsOf(rm) {
			f := c.Parent()
			if w.inPkg(f, "core/execute") || w.inPkg(f, "core/parser") {
				r.Violation(rule, w.FuncKey(f), w.InstrPos(c), "the first commands of a flow are taken away before it runs", nil)
			}
		}
	}
}

// freshParsedCmds: a field of a struct that is being made
func freshParsedCmds(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	al, ok := fa.X.(*ssa.Alloc)
	return ok && (al.Comment == "complit" || !al.Heap)
}

// ---- the run of a flow

func c19Run(w *World, r *Report) {
	rule := "a-flow-is-run-once"
	f := w.MethodOpt("core/execute", "Executor", "execute")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	sp := &Spec{Name: rule, MaxDisj: 40}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if b, ok := v.(*ssa.BinOp); ok {
			if x.Val(b.X).Key() == "$@some" {
				if n, ok := constInt(b.Y); ok {
					switch {
					case b.Op == token.EQL && n <= 0, b.Op == token.LSS && n <= 1, b.Op == token.LEQ && n <= 0:
						return avFalse
					case b.Op == token.NEQ && n <= 0, b.Op == token.GTR && n <= 0, b.Op == token.GEQ && n <= 1:
						return avTrue
					}
				}
				return nil
			}
			return cmpConsts(x, b)
		}
		return nil
	}
	isEv := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/execute", "Executor", "executeFlow") }
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if l := lenOf(c); l != nil && w.isField(l, "core/model", "ParsedCmds", "Cmds") {
			none := Alt{Results: []*AV{avInt(0)}, Apply: func(x *Ctx) { x.Set("nothing", "1") }, Note: "no command is left"}
			some := Alt{Results: []*AV{avSym("@some")}, Apply: func(x *Ctx) { x.Set("some", "1") }}
			switch {
			case x.Get("nothing") != "":
				return &Action{Alts: []Alt{none}}
			case x.Get("some") != "":
				return &Action{Alts: []Alt{some}}
			}
			return &Action{Alts: []Alt{none, some}}
		}
		if w.callsMethod(c, "core/model", "Blender", "Invoke") || callee != nil && callee.Name() == "removeEmptyCmds" {
			x.Set("some", "")
			x.Set("nothing", "")
		}
		o := calleeObj(c)
		switch {
		case isEv(c):
			r.Ok(rule, k, w.InstrPos(x.In), "")
			if x.Get("ran") != "" {
				x.Report(k, "a flow can be run twice")
			}
			okFlow, okMasks := false, false
			for i, a := range args {
				if a.K == kSym && strings.HasPrefix(a.Sym, "@parsed") {
					okFlow = true
				}
				if p, ok := c.Args[i].(*ssa.Parameter); ok && p.Parent() == f && strings.HasSuffix(p.Type().String(), "ExecuteMask") {
					okMasks = true
				}
				if a.Key() == "$p:masks" {
					okMasks = true
				}
			}
			if !okFlow && x.Get("parsed") != "" {
				x.Report(k, "another flow is run than the one that was parsed")
			}
			if !okMasks {
				x.Report(k, "a flow is run without the masks of its commands")
			}
			return boolAlts(x, c, func(x *Ctx) { x.Set("ran", "1") }, func(x *Ctx) { x.Set("ran", "1") }, nil, "executeFlow")
		case w.callsMethod(c, "core/parser", "Parser", "Parse") || o != nil && o.Name() == "Parse" && w.isPtrTo(c.Signature().Results().At(0).Type(), "core/model", "ParsedCmds"):
			x.Set("parsed", "1")
			return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@parsed")}}}}
		case o != nil && o.Name() == "emptyInput":
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("nothing", "1") }},
				{Results: []*AV{avFalse}},
			}}
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || x.Get("ran") != "" || x.Get("nothing") != "" {
			return
		}
		if x.St.Eval(o.Results[lastBoolIdx(f.Signature)]) == "false" {
			return
		}
		x.Report(k, "on this path a flow is reported as successful without having been run")
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	r.Floor(rule, 1)
}

// ---- the turns of the executor

func c19Turns(w *World, r *Report) {
	rule := "each-turn-runs-the-command-it-is-at"
	f := w.MethodOpt("core/execute", "Executor", "executeFlow")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	isEv := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/execute", "Executor", "executeCmd") }
	var h *ssa.BasicBlock
	var call *ssa.Call
	n := 0
	forEachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && isEv(&c.Call) {
			h, call = innermostLoop(c.Block()), c
			n++
		}
	})
	if call == nil || h == nil {
		return
	}
	if n > 1 {
		r.Violation(rule, k, w.InstrPos(call), "a turn of the executor can run a command at more than one place", nil)
		return
	}
	blocks := loopBlocks(h)
	isCmds := func(v ssa.Value) bool { return v != nil && w.isCmdList(v.Type()) }
	// the test of the loop
	var body *ssa.BasicBlock
	var idx ssa.Value
	for b := range blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !blocks[b.Succs[0]] || blocks[b.Succs[1]] {
			continue
		}
		if c, ok := iff.Cond.(*ssa.BinOp); ok && c.Op == token.LSS && isCmds(lenArg(c.Y)) {
			body, idx = b.Succs[0], c.X
		}
	}
	if body == nil {
		return
	}
	phi, ok := idx.(*ssa.Phi)
	if !ok {
		return
	}
	for i, e := range phi.Edges {
		if !h.Dominates(phi.Block().Preds[i]) {
			if c, ok := constInt(e); !ok || c != 0 {
				r.Violation(rule, k, w.InstrPos(call), "a flow does not start at its first command", nil)
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		good := false
		if ok && b.Op == token.ADD {
			if c, ok := constInt(b.Y); ok && c == 1 {
				ex, isEx := b.X.(*ssa.Extract)
				good = isEx && ex.Tuple == ssa.Value(call) && ex.Index == 0
				if ph, ok := b.X.(*ssa.Phi); ok && !good {
					good = true
					for _, e2 := range ph.Edges {
						ex, isEx := e2.(*ssa.Extract)
						if !(isEx && ex.Tuple == ssa.Value(call) && ex.Index == 0) {
							good = false
						}
					}
				}
			}
		}
		if !good {
			r.Violation(rule, k, w.InstrPos(call), "the turn after a command is not the one right after the index the command handed back", nil)
		}
	}
	// what the turn is run with
	for i, a := range call.Call.Args {
		switch {
		case w.isNamed(a.Type(), "core/model", "ParsedCmd") && !isPtr(a.Type()):
			v := a
			if u, ok := v.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					if ss, known := w.storesToCell(al); known && len(ss) == 1 {
						v = ss[0]
					}
				}
			}
			if u, ok := v.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && (ia.Index != idx || !isCmds(ia.X)) {
					r.Violation(rule, k, w.InstrPos(call), "a turn runs another command than the one it is at", nil)
				}
			}
		case a.Type().String() == "int":
			if a != idx {
				r.Violation(rule, k, w.InstrPos(call), "a command is told another place in the flow than its own", nil)
			}
		case w.isPtrTo(a.Type(), "core/model", "ExecuteMask"):
			for v := range madeOf(a) {
				if ia, ok := v.(*ssa.IndexAddr); ok && strings.HasSuffix(ia.X.Type().String(), "ExecuteMask") && ia.Index != idx {
					r.Violation(rule, k, w.InstrPos(call), "a command gets the mask of another one", nil)
				}
			}
			if !madeOf(a)[maskParam(f)] {
				r.Violation(rule, k, w.InstrPos(call), "the masks of the flow do not reach its commands", nil)
			}
		}
		_ = i
	}
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if isEv(c) {
			x.count("ran")
			return &Action{Alts: []Alt{
				{Results: []*AV{avSym("@idx"), avFalse, avUnknown}},
				{Results: []*AV{avSym("@idx"), avTrue, avUnknown}},
			}}
		}
		return nil
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		if in.Block() == body && in == body.Instrs[0] {
			x.Set("turn", "1")
		}
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if to != h {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		if x.Get("turn") == "1" && x.Get("ran") != "1" {
			x.Report(k, "on this path a turn of the executor runs %s", manyOf(x.Get("ran")))
		}
		x.Set("turn", "")
		x.Set("ran", "")
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind == exReturn && x.Get("turn") == "1" && x.St.Eval(o.Results[0]) != "false" {
			x.Report(k, "on this path a flow is reported as successful before its last command was run")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
}

func maskParam(f *ssa.Function) ssa.Value {
	for _, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(s.Elem().String(), "ExecuteMask") {
			return p
		}
	}
	return nil
}

// ---- one command

func c19Cmd(w *World, r *Report) {
	rule := "a-command-is-started-once"
	f := w.MethodOpt("core/execute", "Executor", "executeCmd")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	var idx *ssa.Parameter
	for _, p := range f.Params {
		if p.Type().String() == "int" {
			idx = p
		}
	}
	if idx == nil {
		return
	}
	starts := func(c *ssa.CallCommon) string {
		switch {
		case w.callsMethod(c, "core/model", "CmdTree", "Execute"), w.callsMethod(c, "core/model", "Cmd", "Execute"):
			return "here"
		case w.callsMethod(c, "core/execute", "", "asyncExecute"):
			return "background"
		}
		return ""
	}
	sp := &Spec{Name: rule, MaxDisj: 60}
	sp.Track = func(s string) bool { return s == "@res" || s == "@own" }
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		switch s := starts(c); {
		case s == "here":
			x.count("ran")
			r.Ok(rule, k+" "+s, w.InstrPos(x.In), "")
			for i, a := range c.Args {
				if a.Type().String() == "int" && args[i].Key() != "$@own" {
					x.Report(k, "a command is started at another place of the flow than its own")
				}
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avSym("@res"), avTrue}},
				{Results: []*AV{avSym("@res"), avFalse}},
			}}
		case s == "background":
			x.count("ran")
			r.Ok(rule, k+" "+s, w.InstrPos(x.In), "")
			return &Action{Alts: []Alt{{Results: []*AV{avUnknown, avTrue}}, {Results: []*AV{avUnknown, avFalse}}}}
		case w.callsMethod(c, "core/model", "CmdTree", "IsNoExecutableCmd"):
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("none", "1") }},
				{Results: []*AV{avFalse}},
			}}
		case w.callsMethod(c, "core/model", "ParsedCmd", "LastCmdNode"):
			return &Action{Alts: []Alt{
				{Results: []*AV{avNonNil("@node")}},
				{Results: []*AV{avNil}, Apply: func(x *Ctx) { x.Set("none", "1") }},
			}}
		case w.callsMethod(c, "core/model", "ParsedCmds", "CloneOne"):
			for i, a := range c.Args {
				if a.Type().String() == "int" && args[i].Key() != "$@own" {
					x.Report(k, "another command of the flow is started in the background")
				}
			}
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if x.Get("ran") == "2" {
			x.Report(k, "on this path a command is started twice")
		}
		if o.Kind != exReturn || x.St.Eval(o.Results[1]) == "false" {
			return
		}
		if x.Get("ran") == "" && x.Get("none") == "" {
			x.Report(k, "on this path a command counts as succeeded without having been started")
		}
		if a := o.Results[0].Key(); a != "$@res" && a != "$@own" {
			x.Report(k, "on this path the flow does not go on from the command that was run")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, map[string]*AV{idx.Name(): avSym("@own")}, nil)
	r.Engine(e)
	r.Floor(rule, 1)
}

// ---- its body

func (w *World) constOf(pkg, name string) string {
	sp := w.SSAPkgs[w.pkgPath(pkg)]
	if sp == nil {
		return ""
	}
	c, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok || c.Value.Value == nil {
		return ""
	}
	if c.Value.Value.Kind() == constant.String {
		return "s:" + constant.StringVal(c.Value.Value)
	}
	return "i:" + c.Value.Value.ExactString()
}

func c19Bodies(w *World, r *Report) {
	rule := "a-body-is-run-once-per-execution"
	c19ByType(w, r, rule)
	once := func(meth string, what string, is func(c *ssa.CallCommon) bool, none func(x *Ctx) bool, value func(x *Ctx, v ssa.Value) *AV, okIdx int) {
		f := w.MethodOpt("core/model", "Cmd", meth)
		if f == nil {
			return
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		found := false
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && is(&c.Call) {
				found = true
			}
		})
		if !found {
			return
		}
		sp := &Spec{Name: rule, MaxDisj: 30}
		sp.Inline = func(g *ssa.Function) bool { return w.isMethodOrFn(g, "core/model", "shouldExecByMask") }
		sp.Value = value
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if is(c) {
				x.count("ran")
				r.Ok(rule, k, w.InstrPos(x.In), "")
				var rs []*AV
				sig := c.Signature().Results()
				for i := 0; i < sig.Len(); i++ {
					if sig.At(i).Type().String() == "bool" {
						rs = append(rs, avSym("@ok"))
					} else {
						rs = append(rs, avSym("@res"))
					}
				}
				return &Action{Alts: []Alt{{Results: rs}}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind == exPanic {
				return
			}
			if x.Get("ran") == "2" {
				x.Report(k, "on this path %s is run twice for one execution", what)
			}
			if o.Kind != exReturn {
				return
			}
			if okIdx >= 0 && okIdx < len(o.Results) && x.St.Eval(o.Results[okIdx]) == "false" {
				return
			}
			if x.Get("ran") == "" && !(none != nil && none(x)) {
				x.Report(k, "on this path a command returns without a failure although %s was not run", what)
			}
			if x.Get("ran") == "1" && none != nil && none(x) {
				x.Report(k, "on this path %s is run although it is to be skipped", what)
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{"mask": avSym("@mask")}, nil)
		r.Engine(e)
	}
	method := func(typ, name string) func(c *ssa.CallCommon) bool {
		return func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", typ, name) }
	}
	once("Execute", "it", method("Cmd", "execute"), nil, nil, -1)
	once("execute", "it", method("Cmd", "executeByType"), nil, nil, 1)
	once("executePowerCmd", "its body", func(c *ssa.CallCommon) bool { return w.dynCallOf(c, "core/model", "PowerCmd") }, nil, nil, -1)
	c19PowerCmd(w, r, rule)
	// a nested flow, when the mask does not say to skip it
	policy := func(x *Ctx, v ssa.Value) *AV {
		if fieldRead(v) == "ExecPolicy" {
			if _, ok := v.(*ssa.FieldAddr); !ok {
				return avSym("@policy")
			}
		}
		return nil
	}
	exec := w.constOf("core/model", "ExecPolicyExec")
	skipped := func(x *Ctx) bool {
		return x.St.IsNil(avSym("@mask")) == "false" && x.Fact("@policy") != exec && (x.Fact("@policy") != "" || hasNe(x.St.facts["@policy"], exec))
	}
	once("executeFlow", "its nested flow", w.callsExecutorExecute, skipped, policy, -1)
	// a script, when there is one
	script := func(c *ssa.CallCommon) bool { n := fullName(c); return n == "(*os/exec.Cmd).Run" }
	once("executeFile", "its script", script, func(x *Ctx) bool { return x.truth("@empty(@file)") == "true" }, func(x *Ctx, v ssa.Value) *AV {
		if u, ok := v.(*ssa.UnOp); ok && w.isField(u.X, "core/model", "Cmd", "cmdLine") {
			return avSym("@file")
		}
		return emptyValue(x, v)
	}, 0)
	c19FileNFlow(w, r, rule)
	if f := w.MethodOpt("core/model", "CmdTree", "Execute"); f != nil {
		n := 0
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && w.callsMethod(&c.Call, "core/model", "Cmd", "Execute") {
				n++
				r.Ok(rule, w.FuncKey(f), w.InstrPos(in), "")
				if n > 1 || innermostLoop(in.Block()) != nil {
					r.Violation(rule, w.FuncKey(f), w.InstrPos(in), "a command can be run twice", nil)
				}
			}
		})
	}
	r.Floor(rule, 1)
}

func hasNe(f Fact, c string) bool {
	for _, n := range f.Ne {
		if n == c {
			return true
		}
	}
	return false
}

func (w *World) isMethodOrFn(g *ssa.Function, pkg, name string) bool {
	return g != nil && g.Name() == name && w.inPkg(g, pkg)
}

func c19ByType(w *World, r *Report, rule string) {
	f := w.MethodOpt("core/model", "Cmd", "executeByType")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	var idx *ssa.Parameter
	for _, p := range f.Params {
		if p.Type().String() == "int" {
			idx = p
		}
	}
	if idx == nil {
		return
	}
	types := []struct{ name, body string }{
		{"CmdTypePower", "power"}, {"CmdTypeNormal", "normal"}, {"CmdTypeFile", "script"}, {"CmdTypeDirWithCmd", "script"},
		{"CmdTypeFlow", "flow"}, {"CmdTypeAdHotFlow", "flow"}, {"CmdTypeFileNFlow", "flow and script"},
		{"CmdTypeEmptyDir", ""}, {"CmdTypeEmpty", ""}, {"CmdTypeMetaOnly", ""},
	}
	exec := w.constOf("core/model", "ExecPolicyExec")
	skip := w.constOf("core/model", "ExecPolicySkip")
	for _, t := range types {
		ty := w.constOf("core/model", t.name)
		if ty == "" {
			continue
		}
		for _, pol := range []string{"none", exec, skip} {
			want := t.body
			if pol == skip {
				want = ""
			}
			pol, t := pol, t
			sp := &Spec{Name: rule, MaxDisj: 30}
			sp.Inline = func(g *ssa.Function) bool { return w.isMethodOrFn(g, "core/model", "shouldExecByMask") }
			sp.Value = func(x *Ctx, v ssa.Value) *AV {
				switch v := v.(type) {
				case *ssa.UnOp:
					if v.Op != token.MUL {
						return nil
					}
					if w.isField(v.X, "core/model", "Cmd", "ty") {
						return &AV{K: kConst, C: ty}
					}
					if fieldRead(v) == "ExecPolicy" && pol != "none" {
						return &AV{K: kConst, C: pol}
					}
				case *ssa.BinOp:
					return cmpConsts(x, v)
				}
				return nil
			}
			sp.Instr = func(x *Ctx, in ssa.Instruction) { endsFlow(w, x, in) }
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				name := ""
				switch {
				case w.dynCallOf(c, "core/model", "NormalCmd"):
					name = "normal"
				case w.dynCallOf(c, "core/model", "PowerCmd"), w.callsMethod(c, "core/model", "Cmd", "executePowerCmd"):
					name = "power"
				case w.callsMethod(c, "core/model", "Cmd", "executeFile"):
					name = "script"
				case w.callsMethod(c, "core/model", "Cmd", "executeFlow"):
					name = "flow"
				case w.callsMethod(c, "core/model", "Cmd", "executeFileNFlow"):
					name = "flow and script"
				}
				if name == "" {
					return nil
				}
				if g := x.Get("ran"); g != "" {
					name = g + " and " + name
				}
				x.Set("ran", name)
				if c.Signature().Results().Len() == 2 {
					return &Action{Alts: []Alt{{Results: []*AV{avSym("@res"), avSym("@ok")}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@ok")}}}}
			}
			sp.Exit = func(x *Ctx, o *Outcome) {
				if o.Kind != exReturn {
					if o.Kind == exPanic && x.Get("ran") == "" && want != "" {
						x.Report(k+" "+t.name, "a command of this kind ends with an error instead of being run")
					}
					return
				}
				r.Ok(rule, k+" "+t.name, w.Pos(f.Pos()), "")
				got := x.Get("ran")
				if got != want {
					n := func(s string) string {
						if s == "" {
							return "nothing"
						}
						return "its " + s
					}
					x.Report(k+" "+t.name, "a command of this kind (mask policy: %s) is run by %s instead of %s", pol, n(got), n(want))
				}
				a := o.Results[0].Key()
				if a != "$@own" && !(got == "power" && (a == "$@res" || x.Get("cleared") != "")) {
					x.Report(k+" "+t.name, "after a command of this kind the flow does not go on with the next one")
				}
				if got != "" && o.Results[1].Key() != "$@ok" && x.St.Eval(o.Results[1]) != "@ok" {
					if e := x.St.Eval(o.Results[1]); e == "true" && x.Fact("@ok") == "" {
						x.Report(k+" "+t.name, "the outcome of a command of this kind is not what its body reports")
					}
				}
			}
			mask := avNonNil("@mask")
			if pol == "none" {
				mask = avNil
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(f, map[string]*AV{idx.Name(): avSym("@own"), "mask": mask}, nil)
			r.Engine(e)
		}
	}
}

// endsFlow notes that the commands of the flow were taken away
func endsFlow(w *World, x *Ctx, in ssa.Instruction) {
	if st, ok := in.(*ssa.Store); ok && w.isField(st.Addr, "core/model", "ParsedCmds", "Cmds") {
		if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
			x.Set("cleared", "1")
		} else {
			x.Set("cleared", "")
		}
	}
}

func c19PowerCmd(w *World, r *Report, rule string) {
	f := w.MethodOpt("core/model", "Cmd", "executePowerCmd")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Track = func(s string) bool { return s == "@res" }
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Instr = func(x *Ctx, in ssa.Instruction) { endsFlow(w, x, in) }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if w.dynCallOf(c, "core/model", "PowerCmd") {
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@res"), avSym("@ok")}}}}
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || len(o.Results) != 2 {
			return
		}
		a := o.Results[0].Key()
		if x.Get("cleared") == "" && a != "$@res" {
			x.Report(k+" index", "after a power command the flow does not go on where the command said")
		}
		if o.Results[1].Key() != "$@ok" {
			x.Report(k+" outcome", "the outcome of a power command is not what its body reports")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
}

func c19FileNFlow(w *World, r *Report, rule string) {
	f := w.MethodOpt("core/model", "Cmd", "executeFileNFlow")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	exec := w.constOf("core/model", "ExecPolicyExec")
	skip := w.constOf("core/model", "ExecPolicySkip")
	for _, pol := range []string{"none", exec, skip} {
		pol := pol
		sp := &Spec{Name: rule, MaxDisj: 30}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			switch v := v.(type) {
			case *ssa.UnOp:
				if v.Op == token.MUL && fieldRead(v) == "FileNFlowExecPolicy" && pol != "none" {
					return &AV{K: kConst, C: pol}
				}
			case *ssa.BinOp:
				return cmpConsts(x, v)
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch {
			case w.callsMethod(c, "core/model", "Cmd", "executeFlow"):
				x.count("flow")
				if x.Get("file") != "" {
					x.Report(k, "the nested flow of a command is run after its script")
				}
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}}, {Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("failed", "1") }}}}
			case w.callsMethod(c, "core/model", "Cmd", "executeFile"):
				x.count("file")
				if x.Get("flow") == "" {
					x.Report(k, "the script of a command is run before its nested flow")
				}
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}}, {Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("failed", "1") }}}}
			case c.StaticCallee() == nil && !c.IsInvoke() && c.Signature().Results().Len() == 1 && c.Signature().Results().At(0).Type().String() == "bool":
				// the breakpoint between the two: the user may say no
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}}, {Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("no", "1") }, Note: "the user skips the script"}}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			r.Ok(rule, k, w.Pos(f.Pos()), "")
			if x.Get("flow") == "2" || x.Get("file") == "2" {
				x.Report(k, "on this path the nested flow or the script of a command is run twice")
			}
			if x.Get("file") != "" && (pol == skip || x.Get("no") != "") {
				x.Report(k, "on this path the script of a command is run although it is to be skipped")
			}
			if x.St.Eval(o.Results[0]) == "false" {
				return
			}
			if x.Get("flow") == "" || x.Get("file") == "" && pol != skip && x.Get("no") == "" {
				x.Report(k, "on this path a command succeeds without its nested flow or its script having been run")
			}
		}
		mask := avNonNil("@mask")
		if pol == "none" {
			mask = avNil
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{"mask": mask}, nil)
		r.Engine(e)
	}
}

// ---- what power commands hand back

func c19Power(w *World, r *Report) {
	rule := "power-commands-go-on-or-end-the-flow"
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range w.Funcs {
		if f.Signature.Recv() == nil && w.sigIs(f, "core/model", "PowerCmd") && len(f.Blocks) > 0 {
			todo = append(todo, f)
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		k := w.FuncKey(f)
		r.Funcs[k] = true
		ends := func(b *ssa.BasicBlock) bool {
			for _, d := range f.Blocks {
				if !(d == b || d.Dominates(b)) {
					continue
				}
				for _, in := range d.Instrs {
					if st, ok := in.(*ssa.Store); ok && w.isField(st.Addr, "core/model", "ParsedCmds", "Cmds") {
						if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
							return true
						}
					}
					if c, ok := in.(*ssa.Call); ok && w.callsMethod(&c.Call, "mods/builtin", "", "clearFlow") {
						return true
					}
				}
			}
			return false
		}
		for _, ret := range returnsOf(f) {
			if len(ret.Results) != 2 {
				continue
			}
			var good func(v ssa.Value, at *ssa.BasicBlock, d int) string
			good = func(v ssa.Value, at *ssa.BasicBlock, d int) string {
				if d > 8 {
					return ""
				}
				switch v := v.(type) {
				case *ssa.Parameter:
					if v.Type().String() != "int" {
						return "another number"
					}
					return ""
				case *ssa.Const:
					if n, ok := constInt(v); ok && n == 0 && ends(at) {
						return ""
					}
					return "a fixed number (without ending the flow)"
				case *ssa.Phi:
					for i, e := range v.Edges {
						if s := good(e, v.Block().Preds[i], d+1); s != "" {
							return s
						}
					}
					return ""
				case *ssa.Extract:
					c, ok := v.Tuple.(*ssa.Call)
					if !ok || v.Index != 0 {
						return ""
					}
					if g := c.Call.StaticCallee(); g != nil && w.InModule(g) && len(g.Blocks) > 0 {
						// its parameter stands for the argument given
						if g.Signature.Results().Len() == 2 && !seen[g] {
							todo = append(todo, g)
						}
						for i, p := range g.Params {
							if p.Type().String() == "int" && i < len(c.Call.Args) {
								if s := good(c.Call.Args[i], at, d+1); s != "" {
									return s
								}
							}
						}
					}
					return ""
				case *ssa.BinOp:
					return "its own place moved by something"
				case *ssa.UnOp:
					if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
						if ss, known := w.storesToCell(al); known {
							for _, s := range ss {
								if m := good(s, at, d+1); m != "" {
									return m
								}
							}
						}
					}
					return ""
				}
				return ""
			}
			r.Ok(rule, k, w.InstrPos(ret), "")
			if s := good(ret.Results[0], ret.Block(), 0); s != "" {
				r.Violation(rule, k, w.InstrPos(ret), "a power command hands back "+s+" as the place where the flow goes on", nil)
			}
		}
	}
	r.Floor(rule, 1)
}
