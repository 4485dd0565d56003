package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: however a run ends, its hooks run once and its failure is shown.

func init() {
	register(&Prop{
		ID: "C13", Title: "However a run ends, its hooks run once and its failure is shown",
		Explain: "Every panic of the module is judged by the type of its value (an error, re-raised, and known not to be nil where the code can tell), every use of a recovered value by its type assertion; the process entry is followed path-sensitively with the run (and each hook) succeeding, failing and panicking in turn, and the sequence of hooks run and errors shown is compared on every way out.",
		Assume:  []string{"panics are recovered (sys.panic.recover)", "the hooks are set (an empty one is skipped)"},
		Run:     runC13,
	})
}

func runC13(w *World, r *Report) {
	c13Panics(w, r)
	c13Recovered(w, r)
	c13Formats(w, r)
	c13Hooks(w, r)
	c13OnlyExit(w, r)
	c13Shown(w, r)
	c13Ends(w, r)
	c13HookCmds(w, r)
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func isRecover(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "recover"
}

// originsOf: the values v may hold, through phis, local variables, captured
// variables and parameters of functions whose callers are all known.
func (w *World) originsOf(v ssa.Value, depth int, seen map[ssa.Value]bool, out map[ssa.Value]bool) {
	if seen[v] || depth <= 0 {
		if depth <= 0 {
			out[v] = true
		}
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			w.originsOf(e, depth-1, seen, out)
		}
		return
	case *ssa.ChangeInterface:
		w.originsOf(v.X, depth-1, seen, out)
		return
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if ss, ok := w.storesToCell(v.X); ok {
				for _, s := range ss {
					w.originsOf(s, depth-1, seen, out)
				}
				return
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		cs := w.callersOf()[f]
		if len(cs) > 0 && f.Parent() == nil {
			i := -1
			for j, p := range f.Params {
				if p == v {
					i = j
				}
			}
			for _, c := range cs {
				if c.StaticCallee() != f || i >= len(c.Args) {
					out[v] = true
					return
				}
			}
			for _, c := range cs {
				w.originsOf(c.Args[i], depth-1, seen, out)
			}
			return
		}
	}
	out[v] = true
}

// storesToCell: everything stored into a local variable (also one captured by
// closures); ok is false if its address goes elsewhere.
func (w *World) storesToCell(a ssa.Value) ([]ssa.Value, bool) {
	if fv, ok := a.(*ssa.FreeVar); ok {
		f := fv.Parent()
		i := -1
		for j, x := range f.FreeVars {
			if x == fv {
				i = j
			}
		}
		var cell ssa.Value
		if f.Parent() != nil && i >= 0 {
			forEachInstr(f.Parent(), func(in ssa.Instruction) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					cell = mc.Bindings[i]
				}
			})
		}
		if cell == nil {
			return nil, false
		}
		return w.storesToCell(cell)
	}
	al, ok := a.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil, false
	}
	var out []ssa.Value
	var visit func(cell ssa.Value) bool
	visit = func(cell ssa.Value) bool {
		if cell.Referrers() == nil {
			return false
		}
		for _, u := range *cell.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr != cell {
					return false
				}
				out = append(out, u.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := u.Fn.(*ssa.Function)
				for i, b := range u.Bindings {
					if b == cell && !visit(fn.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(al) {
		return nil, false
	}
	return out, true
}

// c13Panics: what is raised is an error.
func c13Panics(w *World, r *Report) {
	rule := "what-is-raised-is-an-error"
	ei := errorIface()
	for _, f := range w.Funcs {
		n := 0
		forEachInstr(f, func(in ssa.Instruction) {
			p, ok := in.(*ssa.Panic)
			if !ok {
				return
			}
			n++
			where := fmt.Sprintf("%s: panic #%d", w.FuncKey(f), n)
			out := map[ssa.Value]bool{}
			w.originsOf(p.X, 8, map[ssa.Value]bool{}, out)
			bad := ""
			for v := range out {
				switch x := v.(type) {
				case *ssa.MakeInterface:
					t := x.X.Type()
					if types.IsInterface(t) {
						break
					}
					if !types.Implements(t, ei) {
						bad = "a value of type " + t.String() + " is raised: what handles failures takes errors only, so ticat crashes without showing it or running its hooks"
					} else if !types.Comparable(t) {
						bad = "an error of type " + t.String() + " is raised, which can not be looked up among the handled errors"
					}
				case *ssa.Const:
					if x.IsNil() {
						bad = "nil is raised: the failure is taken for a success"
					}
				default:
					if !types.IsInterface(v.Type()) || !types.Implements(v.Type(), ei) {
						break // recovered values and the like are judged where they were raised
					}
					if w.errMayBeNil(v, p) {
						bad = "the error raised may be nil (nothing on the way here compared it with nil): the failure is taken for a success"
					}
				}
			}
			pos := w.InstrPos(in)
			if bad != "" {
				r.Violation(rule, where, pos, bad, nil)
				return
			}
			r.Ok(rule, where, pos, "")
		})
	}
	r.Floor(rule, 40)
}

// errMayBeNil: err is a plain call result or local which nothing compared with
// nil on the way to the panic. Unclear origins are not judged.
func (w *World) errMayBeNil(v ssa.Value, p *ssa.Panic) bool {
	if v.Parent() != p.Parent() {
		return false
	}
	var call *ssa.Call
	switch x := v.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
	default:
		return false
	}
	if call == nil {
		return false
	}
	if callee := call.Call.StaticCallee(); callee == nil || neverNil(callee, v, 3) {
		return false
	}
	// any comparison of the error, or of what is raised, on a dominating branch
	same := map[ssa.Value]bool{v: true}
	for changed := true; changed; {
		changed = false
		for x := range same {
			if x.Referrers() == nil {
				continue
			}
			for _, u := range *x.Referrers() {
				switch u := u.(type) {
				case *ssa.Phi:
					if !same[u] {
						same[u], changed = true, true
					}
				case *ssa.Store:
					if u.Val == x {
						if u.Addr.Referrers() != nil {
							for _, l := range *u.Addr.Referrers() {
								if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL && !same[ld] {
									same[ld], changed = true, true
								}
							}
						}
					}
				}
			}
		}
	}
	for b := p.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if mentionsAny(ifi.Cond, same, 6) {
			return false
		}
	}
	return true
}

func mentionsAny(v ssa.Value, set map[ssa.Value]bool, depth int) bool {
	if set[v] {
		return true
	}
	if depth == 0 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	var rands [12]*ssa.Value
	for _, op := range in.Operands(rands[:0]) {
		if op != nil && *op != nil && mentionsAny(*op, set, depth-1) {
			return true
		}
	}
	return false
}

// neverNil: the function always returns a non-nil error there.
func neverNil(f *ssa.Function, v ssa.Value, depth int) bool {
	switch f.String() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	if depth == 0 || len(f.Blocks) == 0 {
		return false
	}
	idx := 0
	if ex, ok := v.(*ssa.Extract); ok {
		idx = ex.Index
	}
	ok := true
	forEachInstr(f, func(in ssa.Instruction) {
		rt, is := in.(*ssa.Return)
		if !is || idx >= len(rt.Results) {
			return
		}
		switch x := rt.Results[idx].(type) {
		case *ssa.MakeInterface:
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c == nil || !neverNil(c, x, depth-1) {
				ok = false
			}
		default:
			ok = false
		}
	})
	return ok
}

// c13Recovered: a recovered value is used as an error, and only if there is one.
func c13Recovered(w *World, r *Report) {
	rule := "what-is-recovered-is-used-as-an-error"
	ei := errorIface()
	for _, f := range w.Funcs {
		n := 0
		forEachInstr(f, func(in ssa.Instruction) {
			t, ok := in.(*ssa.TypeAssert)
			if !ok || t.CommaOk {
				return
			}
			out := map[ssa.Value]bool{}
			w.originsOf(t.X, 8, map[ssa.Value]bool{}, out)
			rec := false
			for v := range out {
				rec = rec || isRecover(v)
			}
			if !rec {
				return
			}
			n++
			where := fmt.Sprintf("%s: recovered #%d", w.FuncKey(f), n)
			pos := w.InstrPos(in)
			if !types.IsInterface(t.AssertedType) || !types.Implements(t.AssertedType, ei) || t.AssertedType.Underlying().(*types.Interface).NumMethods() != 1 {
				r.Violation(rule, where, pos, "a recovered failure is taken for a "+t.AssertedType.String()+": any other failure crashes here", nil)
				return
			}
			// some branch on the way looked at the value
			set := map[ssa.Value]bool{}
			for v := range out {
				set[v] = true
			}
			set[t.X] = true
			if p, ok := t.X.(*ssa.UnOp); ok && p.Op == token.MUL && p.X.Referrers() != nil {
				for _, l := range *p.X.Referrers() {
					if ld, ok := l.(*ssa.UnOp); ok {
						set[ld] = true
					}
				}
			}
			guarded := false
			for b := t.Block(); b.Idom() != nil; b = b.Idom() {
				d := b.Idom()
				if ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && mentionsAny(ifi.Cond, set, 6) {
					guarded = true
				}
			}
			_, isParam := t.X.(*ssa.Parameter)
			if !guarded && !isParam {
				r.Violation(rule, where, pos, "the recovered value is used as an error without a look whether there was one: this crashes when nothing failed", nil)
				return
			}
			r.Ok(rule, where, pos, "")
		})
	}
	r.Floor(rule, 1)
}

// c13Formats: data is not used as the format of an error.
func c13Formats(w *World, r *Report) {
	rule := "messages-are-not-formats"
	var constStr func(v ssa.Value, depth int, seen map[ssa.Value]bool) bool
	constStr = func(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if depth == 0 {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil || x.Value.Kind() == constant.String
		case *ssa.BinOp:
			return constStr(x.X, depth-1, seen) && constStr(x.Y, depth-1, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !constStr(e, depth-1, seen) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			f := x.Parent()
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, c := range w.callersOf()[f] {
					j := i
					if c.IsInvoke() {
						j--
					}
					if j >= 0 && j < len(c.Args) && !constStr(c.Args[j], depth-1, seen) {
						return false
					}
				}
			}
			return true
		case *ssa.Call:
			// the result of another formatting, or text from elsewhere
			if c := x.Call.StaticCallee(); c != nil && !w.InModule(c) {
				return false
			}
			return !strings.HasSuffix(fullName(&x.Call), ".Error") && !strings.HasSuffix(fullName(&x.Call), ").GetRaw")
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.FieldAddr); ok {
				return false
			}
			return true
		case *ssa.Field, *ssa.Lookup:
			return false
		}
		return true
	}
	for _, f := range w.Funcs {
		n := 0
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || fullName(ci.Common()) != "fmt.Errorf" {
				return
			}
			n++
			where := fmt.Sprintf("%s: error #%d", w.FuncKey(f), n)
			if !constStr(ci.Common().Args[0], 6, map[ssa.Value]bool{}) {
				r.Violation(rule, where, w.InstrPos(in), "text that is not fixed is used as the format of an error: a % in it garbles the message", nil)
				return
			}
			r.Ok(rule, where, w.InstrPos(in), "")
		})
	}
	r.Floor(rule, 20)
}

func (w *World) isExit(c *ssa.CallCommon) bool {
	switch fullName(c) {
	case "os.Exit", "syscall.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return true
	}
	return false
}

// c13Hooks follows the process entry.
func c13Hooks(w *World, r *Report) {
	rule := "hooks-on-every-way-out"
	root := w.Method("ticat", "TiCat", "RunCli")
	isRun := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/execute", "Executor", "Run") }
	isShow := func(c *ssa.CallCommon) bool {
		return w.callsMethod(c, "cli/display", "", "PrintError")
	}
	isEv := func(c *ssa.CallCommon) bool {
		return isRun(c) || w.callsExecutorExecute(c) || w.isExit(c) || isShow(c)
	}
	const pre = "sys.event.hook."
	hookOf := func(s string) string {
		if strings.HasPrefix(s, pre) {
			return strings.TrimPrefix(s, pre)
		}
		return ""
	}
	sp := &Spec{Name: rule, Event: isEv}
	add := func(x *Ctx, k, v string) {
		if o := x.Get(k); o != "" {
			if strings.Count(o, ",") >= 4 {
				return
			}
			v = o + "," + v
		}
		x.Set(k, v)
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		switch {
		case isRun(c):
			r.Ok(rule, w.FuncKey(x.Fn)+": Executor.Run", w.InstrPos(x.In), "")
			if x.Get("run") != "" {
				x.Report(w.FuncKey(x.Fn)+" twice", "the run is started a second time")
			}
			set := func(v string) func(*Ctx) { return func(x *Ctx) { x.Set("run", v) } }
			return &Action{Alts: []Alt{
				{Results: []*AV{avFalse}, Apply: set("failed"), Note: "the run fails"},
				{Panics: true, Val: avNonNil("@failure of the run"), Apply: set("panicked"), Note: "the run panics"},
				{Results: []*AV{avTrue}, Apply: set("ok"), Note: "the run succeeds"},
			}}
		case w.callsExecutorExecute(c):
			h := ""
			for _, a := range args {
				if a.K == kSym && strings.HasPrefix(a.Sym, "@hookflow ") {
					h = strings.TrimPrefix(a.Sym, "@hookflow ")
				} else if s, ok := a.IsStr(); ok && strings.HasPrefix(s, "@hook ") {
					h = strings.TrimPrefix(s, "@hook ")
				}
			}
			if h == "" {
				h = x.Get("lasthook")
			}
			if h == "" {
				return &Action{Opaque: true}
			}
			r.Ok(rule, w.FuncKey(x.Fn)+": hook "+h, w.InstrPos(x.In), "")
			failed := func(kind string) func(*Ctx) {
				return func(x *Ctx) { add(x, "hooks", h); add(x, "hookfail", h+" "+kind) }
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avFalse}, Apply: failed("failed"), Note: "hook " + h + " fails"},
				{Panics: true, Val: avNonNil("@failure of hook " + h), Apply: failed("panicked"), Note: "hook " + h + " panics"},
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) { add(x, "hooks", h) }},
			}}
		case isShow(c):
			for _, a := range args {
				if a.K == kSym && strings.HasPrefix(a.Sym, "@failure of ") {
					x.Set("shown "+strings.TrimPrefix(a.Sym, "@failure of "), "1")
				}
			}
			return &Action{Alts: []Alt{
				{Apply: func(x *Ctx) { x.Set("shown", "1") }},
				{Panics: true, Val: avNonNil("@failed to show"), Apply: func(x *Ctx) {
					for k := range x.St.auto {
						if strings.HasPrefix(k, "shown ") {
							x.Set(k, "")
						}
					}
				}, Note: "showing the error panics"},
			}}
		case c.IsInvoke() && c.Method.Name() == "Error" && len(c.Args) == 0 && isErrorType(c.Value.Type()):
			// its text is taken, to print it plainly
			x.Set("shown", "1")
			if a := args[0]; a.K == kSym && strings.HasPrefix(a.Sym, "@failure of ") {
				x.Set("shown "+strings.TrimPrefix(a.Sym, "@failure of "), "1")
			}
			return nil
		case w.pureGetter(c):
			k := ""
			if len(args) > 1 {
				k, _ = args[1].IsStr()
			}
			o := calleeObj(c)
			switch {
			case k == "sys.panic.recover" && o.Name() == "GetBool":
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}}}}
			case k == "session" && o.Name() == "GetRaw":
				return &Action{Alts: []Alt{{Results: []*AV{avStr("@session")}}}}
			case hookOf(k) != "":
				h := hookOf(k)
				ap := func(x *Ctx) { x.Set("lasthook", h) }
				if o.Name() == "GetRaw" {
					return &Action{Alts: []Alt{{Results: []*AV{avStr("@hook " + h)}, Apply: ap}}}
				}
				ap(x)
			}
			return &Action{Opaque: true, Pure: true}
		}
		if callee != nil && w.InModule(callee) {
			for _, a := range args {
				if s, ok := a.IsStr(); ok && strings.HasPrefix(s, "@hook ") && c.Signature().Results().Len() == 1 {
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@hookflow " + strings.TrimPrefix(s, "@hook "))}}}}
				}
			}
		}
		if w.callsMethod(c, "core/model", "Env", "Set") || w.callsMethod(c, "core/model", "Env", "SetBool") {
			return &Action{Opaque: true}
		}
		return nil
	}
	// fields of the entry object are set when it was made
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, s := range []ssa.Value{b.X, b.Y} {
				if w.isField(s, "ticat", "TiCat", "executor") {
					return avBool(b.Op == token.NEQ)
				}
			}
		}
		return nil
	}
	exits := 0
	sp.Exit = func(x *Ctx, o *Outcome) {
		run := x.Get("run")
		if run == "" {
			return
		}
		exits++
		hooks, hf := x.Get("hooks"), x.Get("hookfail")
		first := "error"
		if run == "ok" {
			first = "done"
		}
		want := first + ",exit"
		where := w.FuncKey(root)
		if hf == "" {
			if hooks != want {
				x.Report(where+" hooks after "+run, "the run %s and the hooks executed are [%s] instead of [%s]", run, hooks, want)
			}
			if run == "panicked" && x.Get("shown the run") == "" && o.Kind != exPanic {
				x.Report(where+" shown "+run, "the run panicked and its error is not shown")
			}
			if run == "ok" && x.Get("shown") != "" {
				x.Report(where+" shown "+run, "an error is shown although nothing failed")
			}
		} else {
			if hooks != first && hooks != want {
				x.Report(where+" hooks after "+run, "the run %s and the hooks executed are [%s] instead of [%s] (the last failed)", run, hooks, want)
			}
			if x.Get("shown") == "" && o.Kind != exPanic {
				x.Report(where+" shown hook", "hook %s and no error is shown", hf)
			}
			if i := strings.LastIndex(hf, " panicked"); i >= 0 && o.Kind != exPanic && x.Get("shown hook "+hf[:i]) == "" {
				x.Report(where+" shown hook", "hook %s and its error is not the one shown", hf)
			}
			if o.Kind == exReturn {
				x.Report(where+" hook failure", "hook %s and the process ends normally", hf)
			}
		}
		switch o.Kind {
		case exPanic:
			x.Report(where+" panics", "the failure (run %s, hooks [%s], %s) leaves ticat as a panic although panics are to be recovered", run, hooks, hf)
		case exExit:
			if (run != "ok" || hf != "") && !(o.Val.K == kConst && o.Val.C != "i:0") {
				x.Report(where+" status", "the exit status is not a non-zero constant (run %s, hooks failed: %s)", run, hf)
			}
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	r.Ok(rule, "process exits", w.Pos(root.Pos()), fmt.Sprintf("%d abstract exits", exits))
	r.Floor(rule, 3)
	if exits < 6 {
		r.Violation(rule, "exits", w.Pos(root.Pos()), fmt.Sprintf("only %d ways out of the process entry were found", exits), nil)
	}
}

// c13OnlyExit: nothing but the process entry ends the process.
func c13OnlyExit(w *World, r *Report) {
	rule := "only-the-entry-ends-the-process"
	for _, f := range w.Funcs {
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !w.isExit(ci.Common()) {
				return
			}
			where := w.FuncKey(f)
			if fullName(ci.Common()) == "runtime.Goexit" || !w.inPkg(f, "ticat") && !strings.HasSuffix(pkgOf(f), "/main") {
				r.Violation(rule, where, w.InstrPos(in), fullName(ci.Common())+" ends the process (or the run) without its hooks, its record and its error", nil)
				return
			}
			r.Ok(rule, where, w.InstrPos(in), "")
		})
	}
	r.Floor(rule, 1)
}

// c13Shown: showing an error prints something, whatever the settings.
func c13Shown(w *World, r *Report) {
	rule := "an-error-is-always-printed"
	root := w.Fn("cli/display", "PrintError")
	isPrint := func(c *ssa.CallCommon) bool {
		return c.IsInvoke() && w.isNamed(c.Value.Type(), "core/model", "Screen") && (c.Method.Name() == "Print" || c.Method.Name() == "Error")
	}
	inDisp := func(f *ssa.Function) bool { return w.inPkg(f, "cli/display") }
	sp := &Spec{Name: rule, Event: isPrint, Within: inDisp}
	rel := w.RelevantIn(isPrint, inDisp)
	// what makes a printer has to be followed, to know what it is set to
	makes := func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			n, ok := deref(f.Signature.Results().At(i).Type()).(*types.Named)
			if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == w.pkgPath("cli/display") {
				if _, ok := n.Underlying().(*types.Struct); ok {
					return true
				}
			}
		}
		return false
	}
	sp.Inline = func(f *ssa.Function) bool { return inDisp(f) && (rel[f] || makes(f)) }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if isPrint(c) {
			x.Set("printed", "1")
			return &Action{Opaque: true, Pure: true}
		}
		if callee != nil && w.isMethod(callee, "cli/display", "CacheScreen", "IsEmpty") {
			return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}} // the texts shown are not judged
		}
		if w.pureGetter(c) {
			return &Action{Opaque: true, Pure: true}
		}
		if callee != nil && (!inDisp(callee) || !rel[callee] && !makes(callee)) {
			return &Action{Opaque: true, Pure: true}
		}
		return nil
	}
	exits := 0
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		exits++
		if x.Get("printed") == "" {
			x.Report(w.FuncKey(root), "an error can be passed over without a word")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	r.Ok(rule, w.FuncKey(root), w.Pos(root.Pos()), fmt.Sprintf("%d abstract exits", exits))
	if exits == 0 {
		r.Violation(rule, w.FuncKey(root), w.Pos(root.Pos()), "showing an error was not followed to its end", nil)
	}
}

// sameExpr: the same value, or loads of the same fields of the same value.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	}
	return false
}

// c13Ends: a loop that shows a text piece by piece takes something off each time.
func c13Ends(w *World, r *Report) {
	rule := "showing-an-error-ends"
	within := func(f *ssa.Function) bool { return w.inPkg(f, "cli/display") }
	reach := w.calledFrom(w.Fn("cli/display", "PrintError"), within)
	n := 0
	for _, f := range sortFns(w, reach) {
		n++
		for _, h := range f.Blocks {
			l := loopBlocks(h)
			if l == nil {
				continue
			}
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range phi.Edges {
					sl, ok := e.(*ssa.Slice)
					if !ok || !l[h.Preds[i]] || sl.X != ssa.Value(phi) || sl.Low == nil {
						continue
					}
					where := w.FuncKey(f) + ": text shown in pieces"
					if w.positive(sl.Low, sl.Block(), 4) {
						r.Ok(rule, where, w.InstrPos(sl), "")
					} else {
						r.Violation(rule, where, w.InstrPos(sl), "the length cut off in each turn may be 0 or negative: showing the error does not end, or crashes", nil)
					}
				}
			}
		}
	}
	r.Ok(rule, "functions that show errors", "-", fmt.Sprintf("%d functions", n))
}

// positive: v > 0 whenever b is reached.
func (w *World) positive(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if k, ok := constInt(v); ok {
		return k > 0
	}
	if depth == 0 {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			k1, ok1 := constInt(x.X)
			k2, ok2 := constInt(x.Y)
			if ok1 && k1 > 0 || ok2 && k2 > 0 {
				return true // an index plus a length; negative indexes are looked at elsewhere
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "max" || bi.Name() == "len") {
			for _, a := range x.Call.Args {
				if k, ok := constInt(a); ok && k > 0 {
					return true
				}
			}
			return bi.Name() == "len"
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !w.positive(e, x.Block().Preds[i], depth-1) {
				return false
			}
		}
		return true
	}
	for c := b; c != nil; c = c.Idom() {
		d := c.Idom()
		if d == nil {
			break
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		onTrue := d.Succs[0] == c && len(c.Preds) == 1 || d.Succs[0].Dominates(c) && d.Succs[0] != d.Succs[1] && len(d.Succs[0].Preds) == 1
		onFalse := !onTrue && (d.Succs[1] == c && len(c.Preds) == 1 || len(d.Succs[1].Preds) == 1 && d.Succs[1].Dominates(c))
		op, l, rr := bo.Op, bo.X, bo.Y
		if _, isC := constInt(l); isC {
			l, rr = rr, l
			op = flipCmp(op)
		}
		k, isC := constInt(rr)
		if !isC || !sameExpr(l, v) {
			continue
		}
		switch {
		case onTrue && (op == token.GTR && k >= 0 || op == token.GEQ && k >= 1):
			return true
		case onFalse && (op == token.LEQ && k >= 0 || op == token.LSS && k >= 1):
			return true
		}
	}
	return false
}

func flipCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// calledFrom: the functions (within limits) root calls, directly or not.
func (w *World) calledFrom(root *ssa.Function, within func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if out[f] || len(f.Blocks) == 0 || !within(f) {
			return
		}
		out[f] = true
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range calleesOf(c.Common()) {
					add(g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		})
	}
	add(root)
	return out
}

// c13HookCmds: the commands that set the hooks set the one they are named after.
func c13HookCmds(w *World, r *Report) {
	rule := "hook-commands-set-their-hook"
	const pre = "sys.event.hook."
	for _, s := range w.Registrations().Sites {
		for _, c := range s.Calls {
			if c.Name != "AddArg2Env" || len(c.Args) == 0 {
				continue
			}
			k, ok := c.Args[0].(*ssa.Const)
			if !ok || !strings.HasPrefix(constantStringVal(k), pre) {
				continue
			}
			hook := strings.TrimPrefix(constantStringVal(k), pre)
			name := ""
			if rc := s.In.Common(); len(rc.Args) > 0 {
				if sub, ok := rc.Args[0].(*ssa.Call); ok && len(sub.Call.Args) > 1 {
					if o := calleeObj(&sub.Call); o != nil && o.Name() == "AddSub" {
						if nk, ok := sub.Call.Args[1].(*ssa.Const); ok {
							name = constantStringVal(nk)
						}
					}
				}
			}
			where := "hook " + hook
			pos := w.InstrPos(s.In)
			if name != "" && name != hook {
				r.Violation(rule, where, pos, "the command "+name+" sets the hook "+hook, nil)
				continue
			}
			r.Ok(rule, where, pos, "")
		}
	}
	r.Floor(rule, 3)
}
