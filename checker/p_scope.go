package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: what is set for a while ends with it.

func init() {
	register(&Prop{
		ID: "C14", Title: "Settings last as long as their command, flow or session does",
		Explain: "The execution of a flow is followed path-sensitively with every command succeeding, failing and panicking: the stack, its depth and the forest-mode frame are compared with those at the start on every way out, and so is every env key a function puts back after running commands. An interprocedural origin analysis of environments decides in which layer the settings of a line, of a flow and of a command body end up; the environment's own operations are followed path by path.",
		Assume:  []string{"a function that looks up a layer by its type gets that layer"},
		Run:     runC14,
	})
}

func runC14(w *World, r *Report) {
	c14Bookkeeping(w, r)
	c14PutBack(w, r)
	c14OwnLayer(w, r)
	c14Layered(w, r)
	c14LineSettings(w, r)
	c14Lookup(w, r)
	c14Collect(w, r)
	c14Changes(w, r)
	c14Frames(w, r)
	c04Deep(w, r)
	c18SessionFile(w, r, "line-settings-stay-out-of-the-session-file", false)
}

// reachesCmds: functions from which a command body may be run (through static
// calls, closures and the executor interface)
func (w *World) reachesCmds() map[*ssa.Function]bool {
	return w.Memo("reachesCmds", func() interface{} {
		return w.Relevant(w.runsCmdCall)
	}).(map[*ssa.Function]bool)
}

func (w *World) runsCmdCall(c *ssa.CallCommon) bool {
	return w.callsExecutorExecute(c) || w.callsMethod(c, "core/model", "Cmd", "Execute") ||
		w.dynCallOf(c, "core/model", "PowerCmd") || w.dynCallOf(c, "core/model", "NormalCmd") || w.dynCallOf(c, "core/model", "AdHotFlowCmd")
}

// envKeyArg: the constant key of an operation on an environment
func (w *World) envKeyArg(x *Ctx, c *ssa.CallCommon, args []*AV) (op, key string) {
	o := calleeObj(c)
	if o == nil || len(args) < 2 || !w.callsMethod(c, "core/model", "Env", o.Name()) {
		return "", ""
	}
	k, ok := x.St.ConstOf(args[1])
	if !ok || !strings.HasPrefix(k, "s:") {
		return "", ""
	}
	return o.Name(), k[2:]
}

// c14Bookkeeping: the stack and the forest-mode frames on every way out of a flow.
func c14Bookkeeping(w *World, r *Report) {
	rule := "bookkeeping-ends-with-the-flow"
	isRun := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "Execute") }
	runs := w.Relevant(isRun)
	const depthKey, stackKey = "sys.stack-depth", "sys.stack"
	forest := func(c *ssa.CallCommon, n string) bool { return w.callsMethod(c, "core/model", "ForestMode", n) }
	isKey := func(c *ssa.CallCommon) bool {
		o := calleeObj(c)
		if o == nil || len(c.Args) < 2 || !w.callsMethod(c, "core/model", "Env", o.Name()) {
			return false
		}
		s, ok := constString(c.Args[1])
		if !ok || (s != depthKey && s != stackKey) {
			return false
		}
		return !strings.HasPrefix(o.Name(), "Get") && !strings.HasPrefix(o.Name(), "Has")
	}
	sp := &Spec{Name: rule}
	sp.Event = func(c *ssa.CallCommon) bool {
		return isKey(c) || forest(c, "AtForestTopLvl") || forest(c, "Pop")
	}
	sp.Within = func(f *ssa.Function) bool { return w.inPkg(f, "core/execute") }
	ranAny := false
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		b, ok := v.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil
		}
		l, rr := x.Val(b.X), x.Val(b.Y)
		if l.K == kSym && strings.HasPrefix(l.Sym, "@depth:") {
			if k, ok := x.St.ConstOf(rr); ok && strings.HasPrefix(k, "i:") {
				n, _ := strconv.Atoi(strings.TrimPrefix(l.Sym, "@depth:"))
				m, _ := strconv.Atoi(k[2:])
				if b.Op == token.SUB {
					m = -m
				}
				return avSym("@depth:" + strconv.Itoa(n+m))
			}
		}
		return nil
	}
	num := func(x *Ctx) int { n, _ := strconv.Atoi(x.Get("depth")); return n }
	setNum := func(x *Ctx, n int) {
		if n == 0 || n > 9 || n < -9 {
			x.Set("depth", "")
			return
		}
		x.Set("depth", strconv.Itoa(n))
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		op, key := w.envKeyArg(x, c, args)
		switch {
		case key == depthKey && strings.HasPrefix(op, "Get"):
			if o := calleeObj(c); o.Type().(*types.Signature).Results().Len() == 1 {
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@depth:" + strconv.Itoa(num(x)))}}}}
			}
		case key == depthKey && op == "PlusInt":
			if k, ok := x.St.ConstOf(args[2]); ok && strings.HasPrefix(k, "i:") {
				n, _ := strconv.Atoi(k[2:])
				setNum(x, num(x)+n)
				r.Ok(rule, w.FuncKey(x.Fn)+": "+key, w.InstrPos(x.In), "")
				return &Action{Opaque: true, Pure: true}
			}
		case key == depthKey && (op == "SetInt" || op == "Set" || op == "SetUint64"):
			if a := args[2]; a.K == kSym && strings.HasPrefix(a.Sym, "@depth:") {
				n, _ := strconv.Atoi(strings.TrimPrefix(a.Sym, "@depth:"))
				setNum(x, n)
			} else {
				x.Set("depth", "other")
			}
			r.Ok(rule, w.FuncKey(x.Fn)+": "+key, w.InstrPos(x.In), "")
			return &Action{Opaque: true, Pure: true}
		case key == stackKey && (op == "GetRaw" || op == "Get"):
			v := x.Get("stack")
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@stack:" + v)}}}}
		case key == stackKey && op == "Set":
			if a := args[2]; a.K == kSym && strings.HasPrefix(a.Sym, "@stack:") {
				x.Set("stack", strings.TrimPrefix(a.Sym, "@stack:"))
			} else if x.Get("stack") == "" {
				x.Set("stack", "pushed")
			} else {
				x.Set("stack", "")
			}
			r.Ok(rule, w.FuncKey(x.Fn)+": "+key, w.InstrPos(x.In), "")
			return &Action{Opaque: true, Pure: true}
		case forest(c, "AtForestTopLvl"):
			set := func(v string) func(*Ctx) {
				return func(x *Ctx) {
					x.Set("forest", v)
					if v == "no" {
						x.Set("left", "")
					}
				}
			}
			switch x.Get("forest") {
			case "yes":
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}, Apply: set("yes")}}}
			case "no":
				return &Action{Alts: []Alt{{Results: []*AV{avFalse}, Apply: set("no")}}}
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: set("yes"), Note: "the flow is in forest-mode"},
				{Results: []*AV{avFalse}, Apply: set("no"), Note: "the flow is not in forest-mode"},
			}}
		case forest(c, "Pop"):
			r.Ok(rule, w.FuncKey(x.Fn)+": forest-mode", w.InstrPos(x.In), "")
			x.Set("left", "")
			x.Set("forest", "")
			return &Action{Opaque: true, Pure: true}
		case w.callsMethod(c, "core/model", "Env", "Clone"):
			return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@clone")}}}}
		}
		if callee == nil || !(isRun(c) || runs[callee]) || x.E.rel[callee] || callee.Parent() != nil {
			return nil
		}
		// commands are run here
		ranAny = true
		where := w.FuncKey(x.Fn) + ": " + short(callee.Name())
		for i, a := range c.Args {
			if i >= len(args) || !w.isPtrTo(a.Type(), "core/model", "Env") {
				continue
			}
			cl := args[i].K == kSym && strings.Contains(args[i].Sym, "@clone")
			if args[i].K == kUnknown {
				break
			}
			switch x.Get("forest") {
			case "yes":
				if !cl {
					x.Report(where+" forest", "in forest-mode a command is run on the environment the next ones get: what it sets shows up in them")
				}
			case "no":
				if cl {
					x.Report(where+" copy", "a command is run on a copy of the environment though the flow is not in forest-mode: what it sets is lost")
				}
			case "":
				x.Report(where+" undecided", "a command is run without having looked whether the flow is in forest-mode")
			}
			break
		}
		r.Ok(rule, where, w.InstrPos(x.In), "")
		mark := func(x *Ctx) {
			x.Set("forest", "")
			x.Set("left", "1")
		}
		return &Action{Alts: []Alt{
			{Panics: true, Apply: mark, Note: "the command panics"},
			{Apply: mark},
		}}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind == exExit {
			return
		}
		how := "returns"
		if o.Kind == exPanic {
			how = "panics"
		}
		k := w.FuncKey(x.Fn)
		if x.Get("depth") != "" {
			x.Report(k+" depth "+how, "the flow %s with a stack depth that is not the one from before it", how)
		}
		if x.Get("stack") != "" {
			x.Report(k+" stack "+how, "the flow %s with a stack that is not the one from before it", how)
		}
		if x.Get("left") != "" {
			x.Report(k+" forest "+how, "the flow %s without leaving forest-mode: the flow around it goes on in it", how)
		}
	}
	root := w.Method("core/execute", "Executor", "Execute")
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	if !ranAny {
		undecided("no command is run from %s", w.FuncKey(root))
	}
	r.Floor(rule, 3)
}

// c14PutBack: a key put back after commands were run is put back on every way out.
func c14PutBack(w *World, r *Report) {
	rule := "put-back-on-every-way-out"
	runs := w.reachesCmds()
	// candidates: a key is read, and what was read is set again
	cands := map[*ssa.Function]map[string]bool{}
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !runs[f] {
			continue
		}
		fns := append([]*ssa.Function{f}, f.AnonFuncs...)
		for _, g := range fns {
			forEachInstr(g, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				c := ci.Common()
				o := calleeObj(c)
				if o == nil || len(c.Args) < 3 || !strings.HasPrefix(o.Name(), "Set") || !w.callsMethod(c, "core/model", "Env", o.Name()) {
					return
				}
				keys := w.strConsts(c.Args[1])
				if len(keys) != 1 {
					return
				}
				out := map[ssa.Value]bool{}
				w.originsOf(c.Args[2], 6, map[ssa.Value]bool{}, out)
				for v := range out {
					rc, ok := v.(*ssa.Call)
					if !ok || topFunc(rc.Parent()) != f {
						continue
					}
					ro := calleeObj(&rc.Call)
					if ro == nil || len(rc.Call.Args) < 2 || !strings.HasPrefix(ro.Name(), "Get") || !w.callsMethod(&rc.Call, "core/model", "Env", ro.Name()) {
						continue
					}
					rk := w.strConsts(rc.Call.Args[1])
					if len(rk) == 1 && rk[0] == keys[0] {
						if cands[f] == nil {
							cands[f] = map[string]bool{}
						}
						cands[f][keys[0]] = true
					}
				}
			})
		}
	}
	for _, f := range w.Funcs {
		keys := cands[f]
		if keys == nil {
			continue
		}
		f := f
		sp := &Spec{Name: rule}
		sp.Inline = func(g *ssa.Function) bool { return topFunc(g) == f && g != f }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			op, key := w.envKeyArg(x, c, args)
			if keys[key] {
				switch {
				case strings.HasPrefix(op, "Get"):
					if x.Get("dirty "+key) != "" {
						return nil
					}
					if o := calleeObj(c); o.Type().(*types.Signature).Results().Len() == 1 {
						return &Action{Alts: []Alt{{Results: []*AV{avSym("@was:" + nameSan.Replace(key))}}}}
					}
				case strings.HasPrefix(op, "Set") && len(args) > 2:
					if a := args[2]; a.K == kSym && a.Sym == "@was:"+nameSan.Replace(key) {
						x.Set("dirty "+key, "")
					} else {
						x.Set("dirty "+key, "1")
					}
					r.Ok(rule, w.FuncKey(f)+": "+key, w.InstrPos(x.In), "")
					return &Action{Opaque: true, Pure: true}
				case op == "Delete" || op == "DeleteInSelfLayer":
					x.Set("dirty "+key, "1")
					return &Action{Opaque: true, Pure: true}
				}
			}
			run := w.runsCmdCall(c)
			if callee != nil && runs[callee] && topFunc(callee) != f {
				run = true
			}
			if run {
				x.Set("ran", "1")
				return &Action{Alts: []Alt{{Panics: true, Note: "a command panics"}, {}}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind == exExit || x.Get("ran") == "" {
				return
			}
			for k := range keys {
				if x.Get("dirty "+k) != "" {
					x.Report(w.FuncKey(f)+": "+k, "the function %ss without putting %s back to what it was", o.Kind, k)
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}

// strConsts: the string constants a value may be, if it is nothing else
func (w *World) strConsts(v ssa.Value) []string {
	out := map[ssa.Value]bool{}
	w.originsOf(v, 6, map[ssa.Value]bool{}, out)
	ks := map[string]bool{}
	for x := range out {
		s, ok := constString(x)
		if !ok {
			return nil
		}
		ks[s] = true
	}
	return sortedKeys(ks)
}

// c14OwnLayer: what a command body sets outlives its command.
func c14OwnLayer(w *World, r *Report) {
	rule := "commands-set-in-the-session"
	os := w.ownSets()
	judge := func(f *ssa.Function) {
		k := w.FuncKey(f)
		bad := false
		for p := range os[f] {
			if p >= len(f.Params) {
				continue
			}
			var why []string
			g, q := f, p
			for n := 0; n < 20 && g != nil; n++ {
				y := os[g][q]
				why = append(why, w.FuncKey(g)+" at "+w.InstrPos(y.At))
				g, q = y.Via, y.VPar
			}
			bad = true
			r.Violation(rule, k, w.Pos(f.Pos()), "sets a key in the layer of its own command: it is gone when the command ends", why)
		}
		if !bad {
			r.Ok(rule, k, w.Pos(f.Pos()), "")
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, s := range w.Registrations().Sites {
		for _, f := range s.Funcs {
			if !seen[f] {
				seen[f] = true
				judge(f)
			}
		}
	}
	// what scripts change
	if f := w.MethodOpt("core/model", "Cmd", "Execute"); f != nil {
		judge(f)
	}
	r.Floor(rule, 40)
}

// layered: the env is a layer put on top of another one, a copy or a new one;
// bad tells where it is not. Parameters are followed to the callers.
func (w *World) layered(f *ssa.Function, v ssa.Value, depth int) (bad string) {
	fx := w.envFxByType()
	st := &envState{fx: fx, f: f, memo: map[ssa.Value]map[envOrigin]bool{}, busy: map[ssa.Value]bool{}}
	for o := range st.origins(v) {
		switch {
		case o.Param < 0 || o.Rel == relAbove:
		case o.Rel == relLayer:
			return w.FuncKey(f)
		case o.Param >= len(f.Params):
			// captured: judged where the closure is made
			p := f.Parent()
			if p == nil || depth == 0 {
				continue
			}
			forEachInstr(p, func(in ssa.Instruction) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
					b := mc.Bindings[o.Param-len(f.Params)]
					if al, ok := b.(*ssa.Alloc); ok {
						if vals := lastStores(al, mc); vals != nil {
							for _, x := range vals {
								if s := w.layered(p, x, depth-1); s != "" {
									bad = s
								}
							}
							return
						}
					}
					if s := w.layered(p, b, depth-1); s != "" {
						bad = s
					}
				}
			})
		default:
			if depth == 0 {
				continue
			}
			n := 0
			for _, g := range w.callerFns()[f] {
				g := g
				forEachInstr(g, func(in ssa.Instruction) {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						return
					}
					for _, h := range calleesOf(ci.Common()) {
						if h != f {
							continue
						}
						n++
						if a := argOf(ci.Common(), f, o.Param); a != nil {
							if s := w.layered(g, a, depth-1); s != "" {
								bad = s
							}
						}
					}
				})
			}
			if n == 0 {
				return w.FuncKey(f)
			}
		}
		if bad != "" {
			return bad
		}
	}
	return ""
}

func (w *World) envFxByType() *EnvFx {
	return w.Memo("envFxByType", func() interface{} { return w.newEnvFx(true) }).(*EnvFx)
}

// c14Layered: every command, and every nested flow, runs on a layer of its own.
func c14Layered(w *World, r *Report) {
	rule := "a-layer-for-each-command-and-nested-flow"
	for _, f := range w.Funcs {
		f := f
		if !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			what, layer := "", ""
			switch {
			case w.callsMethod(c, "core/model", "Cmd", "Execute"):
				what, layer = "a command", "command"
			case w.callsExecutorExecute(c) && w.inPkg(f, "core/model"):
				what, layer = "a nested flow", "subflow"
			default:
				return
			}
			k := w.FuncKey(f) + ": " + what
			for _, a := range c.Args {
				if !w.isPtrTo(a.Type(), "core/model", "Env") {
					continue
				}
				if bad := w.layered(f, a, 4); bad != "" {
					r.Violation(rule, k, w.InstrPos(in), what+" is run on the environment of what is around it (in "+bad+"): its settings stay when it is over", nil)
				} else if ty := newLayerTypes(w, a); len(ty) > 0 && !ty[layer] {
					r.Violation(rule, k, w.InstrPos(in), what+" is run on a layer of another type ("+strings.Join(sortedKeys(ty), ",")+")", nil)
				} else {
					r.Ok(rule, k, w.InstrPos(in), "")
				}
				break
			}
		})
	}
	r.Floor(rule, 2)
}

// newLayerTypes: the types of the layers made right where the value comes from
func newLayerTypes(w *World, v ssa.Value) map[string]bool {
	out := map[ssa.Value]bool{}
	w.originsOf(v, 4, map[ssa.Value]bool{}, out)
	ty := map[string]bool{}
	for x := range out {
		c, ok := x.(*ssa.Call)
		if !ok || !w.callsMethod(&c.Call, "core/model", "Env", "NewLayer") {
			continue
		}
		if s, ok := constString(c.Call.Args[1]); ok {
			ty[s] = true
		}
	}
	return ty
}

// c14LineSettings: where the settings of a line and of a flow are written.
func c14LineSettings(w *World, r *Report) {
	rule := "line-settings-in-their-layer"
	for _, f := range w.Funcs {
		f := f
		if !w.InModule(f) || !(w.inPkg(f, "core/model") || w.inPkg(f, "core/execute")) || w.isNamedRecv(f, "core/model", "ParsedEnv") {
			continue
		}
		n := 0
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			o := calleeObj(c)
			if o == nil || len(c.Args) < 2 || !w.callsMethod(c, "core/model", "ParsedEnv", o.Name()) || !w.isPtrTo(c.Args[1].Type(), "core/model", "Env") {
				return
			}
			n++
			k := fmt.Sprintf("%s: %s #%d", w.FuncKey(f), o.Name(), n)
			out := map[ssa.Value]bool{}
			w.originsOf(c.Args[1], 4, map[ssa.Value]bool{}, out)
			for v := range out {
				call, ok := v.(*ssa.Call)
				if !ok || !w.callsMethod(&call.Call, "core/model", "Env", "GetOneOfLayers") {
					continue
				}
				el := arrayStores(call.Call.Args[1])
				var ls []string
				for i := 0; i < len(el); i++ {
					if el[int64(i)] == nil {
						return
					}
					s, ok := constString(el[int64(i)])
					if !ok {
						return
					}
					ls = append(ls, s)
				}
				if len(ls) == 0 || (ls[0] != "subflow") {
					r.Violation(rule, k, w.InstrPos(in), "the settings of a flow are not written to the innermost nested flow's layer ("+strings.Join(ls, ",")+"): they stay when it is over", nil)
				} else {
					r.Ok(rule, k, w.InstrPos(in), "the innermost of "+strings.Join(ls, ", "))
				}
				return
			}
			for v := range out {
				call, ok := v.(*ssa.Call)
				if ok && w.callsMethod(&call.Call, "core/model", "Env", "GetLayer") {
					r.Violation(rule, k, w.InstrPos(in), "settings of a line or flow are written to a layer that outlives it", nil)
					return
				}
			}
			if bad := w.layered(f, c.Args[1], 4); bad != "" {
				r.Violation(rule, k, w.InstrPos(in), "settings of a line or flow are written to the environment around it (in "+bad+")", nil)
				return
			}
			r.Ok(rule, k, w.InstrPos(in), "")
		})
	}
	r.Floor(rule, 2)
}

func (w *World) isNamedRecv(f *ssa.Function, pkg, typ string) bool {
	rc := topFunc(f).Signature.Recv()
	return rc != nil && w.isNamed(deref(rc.Type()), pkg, typ)
}

// isPairs: the values of an environment's layer
func (w *World) isPairs(m ssa.Value) bool {
	switch m := m.(type) {
	case *ssa.UnOp:
		if fa, ok := m.X.(*ssa.FieldAddr); ok && w.isNamed(deref(fa.X.Type()), "core/model", "Env") {
			_, isMap := m.Type().Underlying().(*types.Map)
			return isMap
		}
	case *ssa.Field:
		_, isMap := m.Type().Underlying().(*types.Map)
		return isMap && w.isNamed(m.X.Type(), "core/model", "Env")
	}
	return false
}

// c14Lookup: the nearest layer that has the key gives the value.
func c14Lookup(w *World, r *Report) {
	rule := "nearest-layer-first"
	for _, name := range []string{"Get", "GetEx", "Has"} {
		f := w.MethodOpt("core/model", "Env", name)
		if f == nil {
			continue
		}
		name := name
		sp := &Spec{Name: rule}
		sp.Inline = func(g *ssa.Function) bool { return w.isNamedRecv(g, "core/model", "Env") }
		sp.Split = func(x *Ctx, v ssa.Value) []Alt {
			l, ok := v.(*ssa.Lookup)
			if !ok || !w.isPairs(l.X) {
				return w.splitParent(x, v)
			}
			m := x.Val(l.X)
			if m.K != kSym {
				return nil
			}
			lvl := strings.Count(m.Sym, ".parent")
			if x.Get("hit") != "" || x.Get("asked") != "" {
				if x.Get("hit") == strconv.Itoa(lvl) { // looked up again
					return []Alt{{Results: hitRes(l, lvl)}}
				}
				return nil
			}
			miss, _ := strconv.Atoi(x.Get("miss"))
			if lvl > miss {
				x.Report(w.FuncKey(f), "a layer further away is asked before the nearer ones")
			}
			if lvl > 2 { // deep enough: the loop need not be followed for ever
				return []Alt{{Results: hitRes(l, lvl), Apply: func(x *Ctx) { x.Set("hit", strconv.Itoa(lvl)) }}}
			}
			return []Alt{
				{Results: hitRes(l, lvl), Apply: func(x *Ctx) { x.Set("hit", strconv.Itoa(lvl)) }, Note: "the layer has the key"},
				{Results: missRes(l), Apply: func(x *Ctx) { x.Set("miss", strconv.Itoa(lvl+1)) }, Note: "the layer has not the key"},
			}
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			o := calleeObj(c)
			if o == nil || !w.callsMethod(c, "core/model", "Env", o.Name()) || len(args) < 2 {
				return nil
			}
			switch o.Name() {
			case "Get", "GetEx", "Has":
			default:
				return nil
			}
			if x.E.active[callee] == 0 && callee != f {
				return &Action{Inline: true}
			}
			if x.Get("hit") != "" {
				return nil
			}
			if x.Get("miss") == "" {
				x.Report(w.FuncKey(f), "the layers below are asked before the own one")
			}
			x.Set("asked", "1")
			switch o.Name() {
			case "Get":
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@below")}}}}
			case "GetEx":
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@below"), avSym("@belowok")}}}}
			}
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@belowok")}}}}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || len(o.Results) == 0 {
				return
			}
			k := w.FuncKey(f)
			r.Ok(rule, k, w.Pos(f.Pos()), "")
			var val, ok *AV
			switch name {
			case "Has":
				ok = o.Results[0]
			case "Get":
				val = o.Results[0]
			default:
				val, ok = o.Results[0], o.Results[1]
			}
			h := x.Get("hit")
			switch {
			case h != "":
				if val != nil && val.K == kSym && !strings.HasPrefix(val.Sym, "@hit"+h) {
					x.Report(k, "the value of the nearest layer that has the key is not what is returned")
				}
				if ok != nil && x.St.Eval(ok) == "false" {
					x.Report(k, "a key the layer has is reported missing")
				}
			case x.Get("asked") != "":
				if val != nil && val.K == kSym && !strings.HasPrefix(val.Sym, "@below") {
					x.Report(k, "the value of the layers below is not what is returned")
				}
			case x.Get("miss") != "":
				if x.Get("bottom") == "" {
					x.Report(k, "the layers below are not asked")
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 2)
}

// splitParent follows a test for a layer below both ways, remembering the answer.
func (w *World) splitParent(x *Ctx, v ssa.Value) []Alt {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || !w.isPtrTo(b.X.Type(), "core/model", "Env") {
		return nil
	}
	y := b.X
	if c, ok := y.(*ssa.Const); ok && c.IsNil() {
		y = b.Y
	}
	if a := x.Val(y); a.K != kSym || !strings.HasSuffix(a.Sym, ".parent") {
		return nil
	}
	eq := b.Op == token.EQL
	yes := Alt{Results: []*AV{avBool(eq)}, Apply: func(x *Ctx) { x.Set("bottom", "1") }, Note: "there is no layer below"}
	no := Alt{Results: []*AV{avBool(!eq)}, Note: "there is a layer below"}
	if x.Get("bottom") != "" || strings.Count(x.Val(y).Sym, ".parent") > 3 {
		return []Alt{yes}
	}
	return []Alt{yes, no}
}

func hitRes(l *ssa.Lookup, lvl int) []*AV {
	v := avSym("@hit" + strconv.Itoa(lvl))
	if l.CommaOk {
		return []*AV{v, avTrue}
	}
	return []*AV{v}
}

func missRes(l *ssa.Lookup) []*AV {
	v := avSym("@nothing")
	if l.CommaOk {
		return []*AV{v, avFalse}
	}
	return []*AV{v}
}

// c14Collect: when values of all layers are collected, the nearest layer wins.
func c14Collect(w *World, r *Report) {
	rule := "nearest-layer-wins"
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.isNamedRecv(f, "core/model", "Env") {
			continue
		}
		var rec []ssa.Instruction
		var ups []*ssa.MapUpdate
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				rec = append(rec, in)
			}
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if _, isPar := mu.Map.(*ssa.Parameter); isPar {
					ups = append(ups, mu)
				}
			}
		})
		for _, mu := range ups {
			guarded := guardedByMiss(mu)
			for _, rc := range rec {
				k := w.FuncKey(f)
				ownFirst := mu.Block() != rc.Block() && reaches(mu.Block(), rc.Block()) || mu.Block() == rc.Block() && before(mu, rc)
				switch {
				case ownFirst && !guarded:
					r.Violation(rule, k, w.InstrPos(mu), "what the nearer layer has is replaced by the value of the one below", nil)
				case !ownFirst && guarded:
					r.Violation(rule, k, w.InstrPos(mu), "the value of a layer below is kept instead of the nearer one's", nil)
				default:
					r.Ok(rule, k, w.InstrPos(mu), "")
				}
			}
		}
	}
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

// guardedByMiss: done only if the map has not the key yet
func guardedByMiss(mu *ssa.MapUpdate) bool {
	for b := mu.Block(); b != nil && b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := ifi.Cond, false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		ex, ok := cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		l, ok := ex.Tuple.(*ssa.Lookup)
		if !ok || l.X != mu.Map {
			continue
		}
		side := d.Succs[1]
		if neg {
			side = d.Succs[0]
		}
		if side == b || side.Dominates(mu.Block()) {
			return true
		}
	}
	return false
}

// c14Changes: a key that was set is found with that value, a deleted one is not found.
func c14Changes(w *World, r *Report) {
	rule := "set-and-deleted-as-asked"
	type what struct {
		name string
		del  bool
	}
	for _, wh := range []what{{"SetEx", false}, {"Set", false}, {"Delete", true}, {"DeleteEx", true}} {
		f := w.MethodOpt("core/model", "Env", wh.name)
		if f == nil || len(f.Params) < 2 {
			continue
		}
		wh := wh
		sp := &Spec{Name: rule}
		sp.Value = w.pathValue
		sp.Split = func(x *Ctx, v ssa.Value) []Alt {
			b, ok := v.(*ssa.BinOp)
			if wh.del && ok && (b.Op == token.EQL || b.Op == token.NEQ) && w.isNamed(b.X.Type(), "core/model", "EnvLayerType") {
				own := "stop"
				if strings.Contains(x.Val(b.X).Key()+x.Val(b.Y).Key(), ".parent") {
					own = "stopbelow"
				}
				eq := b.Op == token.EQL
				return []Alt{
					{Results: []*AV{avBool(eq)}, Apply: func(x *Ctx) { x.Set(own, "1") }, Note: "the layer is the one to stop at"},
					{Results: []*AV{avBool(!eq)}},
				}
			}
			return w.splitParent(x, v)
		}
		sp.Inline = func(g *ssa.Function) bool {
			return w.isNamedRecv(g, "core/model", "Env") && !strings.HasPrefix(g.Name(), "Get")
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok && w.isPairs(mu.Map) {
				if a := x.Val(mu.Map); a.K == kSym && !strings.Contains(a.Sym, ".parent") && x.Val(mu.Key).Key() == "$key!" {
					x.Set("set", "1")
				}
			}
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "delete" && w.isPairs(c.Args[0]) {
				if a := args[0]; a.K == kSym && !strings.Contains(a.Sym, ".parent") {
					x.Set("own", "1")
				} else if a.K == kSym {
					x.Set("below", "1")
				}
				return nil
			}
			o := calleeObj(c)
			if o == nil || !w.callsMethod(c, "core/model", "Env", o.Name()) {
				return nil
			}
			switch {
			case o.Name() == "GetEx" || o.Name() == "Get" || o.Name() == "GetRaw":
				v := avSym("@visible")
				switch o.Name() {
				case "GetEx":
					return &Action{Alts: []Alt{{Results: []*AV{v, avTrue}}, {Results: []*AV{v, avFalse}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{v}}}}
			case wh.del && callee == f && x.E.active[f] > 0:
				x.Set("below", "1")
				return &Action{Opaque: true, Pure: true}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			k := w.FuncKey(f)
			r.Ok(rule, k, w.Pos(f.Pos()), "")
			if wh.del {
				if x.Get("stop") != "" {
					return // the layer (that of the defaults) is to be spared
				}
				if x.Get("own") == "" {
					x.Report(k, "the key is not taken from the layer itself")
				}
				if x.Get("below") == "" && x.Get("bottom") == "" && x.Get("stopbelow") == "" {
					x.Report(k, "the key is not taken from the layers below: it shows up again with their value")
				}
				return
			}
			if x.Get("set") != "" {
				return
			}
			same := false
			for n, fc := range x.St.facts {
				if strings.HasPrefix(n, "@eq(") && strings.Contains(n, "@visible") && strings.Contains(n, "val") && fc.Eq == "true" {
					same = true
				}
			}
			if !same {
				x.Report(k, "nothing is set though the visible value may be another one")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{f.Params[0].Name(): avNonNil("self"), f.Params[1].Name(): avNonNil("key")}, nil)
		r.Engine(e)
	}
}

// ownSets: functions which may set a key in the very layer of env parameter i
// (not in a layer looked up from it, nor in one put on top of it).
func (w *World) ownSets() map[*ssa.Function]map[int]envWhy {
	return w.Memo("ownSets", func() interface{} {
		fx := w.envFxByType()
		out := map[*ssa.Function]map[int]envWhy{}
		for changed := true; changed; {
			changed = false
			for f := range fx.sums {
				st := &envState{fx: fx, f: f, memo: map[ssa.Value]map[envOrigin]bool{}, busy: map[ssa.Value]bool{}}
				add := func(x ssa.Value, why envWhy) {
					for o := range st.origins(x) {
						if o.Param < 0 || o.Rel != relOwn {
							continue
						}
						if out[f] == nil {
							out[f] = map[int]envWhy{}
						}
						if _, ok := out[f][o.Param]; !ok {
							out[f][o.Param] = why
							changed = true
						}
					}
				}
				forEachInstr(f, func(in ssa.Instruction) {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fx.isEnv(fa.X.Type()) {
								add(fa.X, envWhy{At: in})
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						g := mc.Fn.(*ssa.Function)
						for i, b := range mc.Bindings {
							if _, ok := out[g][len(g.Params)+i]; ok {
								if al, ok := b.(*ssa.Alloc); ok {
									if vals := lastStores(al, mc); vals != nil {
										for _, x := range vals {
											add(x, envWhy{At: in, Via: g, VPar: len(g.Params) + i})
										}
										continue
									}
								}
								add(b, envWhy{At: in, Via: g, VPar: len(g.Params) + i})
							}
						}
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						return
					}
					if w.callsExecutorExecute(c.Common()) {
						return // a nested run
					}
					for _, g := range w.Callees(c.Common()) {
						for p := range out[g] {
							if p >= len(g.Params) {
								continue
							}
							if a := argOf(c.Common(), g, p); a != nil {
								add(a, envWhy{At: in, Via: g, VPar: p})
							}
						}
					}
				})
			}
		}
		return out
	}).(map[*ssa.Function]map[int]envWhy)
}

func dumpOwn(w *World) {
	os := w.ownSets()
	seen := map[*ssa.Function]bool{}
	for _, s := range w.Registrations().Sites {
		for _, f := range s.Funcs {
			if seen[f] {
				continue
			}
			seen[f] = true
			for p := range os[f] {
				var why []string
				g, q := f, p
				for n := 0; n < 12 && g != nil; n++ {
					y := os[g][q]
					why = append(why, w.FuncKey(g)+"@"+w.InstrPos(y.At))
					g, q = y.Via, y.VPar
				}
				fmt.Println(w.FuncKey(f), p, why)
			}
		}
	}
}
