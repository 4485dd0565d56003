package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18, second part: the way of an argument from where it is declared or set to where it is looked up.

func c18Ways(w *World, r *Report) {
	c18DeclaredList(w, r)
	c18Lookups(w, r)
	c18LineSets(w, r)
	c18SessionFile(w, r, "the-session-file-is-the-session", true)
	c18FileSets(w, r)
	c18Rendering(w, r)
}

// update: an entry a function must put into a map field of its receiver
type update struct{ field, key, val string }

// c18Updates follows a method with named parameters: on every normal return it has put the given entries, and under these
// keys nothing else.
func c18Updates(w *World, r *Report, rule, pkg, typ, meth string, params []string, ups []update, lists map[string]string, why string) {
	f := w.MethodOpt(pkg, typ, meth)
	if f == nil || len(f.Params) < len(params)+1 {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return w.isNamedRecv(g, pkg, typ) }
	fieldOf := func(v ssa.Value) string {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return ""
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !w.isNamed(deref(fa.X.Type()), pkg, typ) {
			return ""
		}
		return fieldName(fa.X.Type(), fa.Field)
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			fd := fieldOf(in.Map)
			for _, u := range ups {
				if u.field != fd {
					continue
				}
				if key := x.Val(in.Key); key.Key() != "$"+u.key {
					continue
				}
				v := x.Val(in.Value)
				wrong := v.K == kConst && v.C != u.val || v.K != kConst && v.Key() != "$"+u.val && x.St.Eval(v) != u.val
				if wrong {
					x.Set("wrong "+u.field, "1")
				} else {
					x.Set("wrong "+u.field, "")
				}
				x.Set("put "+u.field, "1")
			}
		case *ssa.Store:
			fa, ok := in.Addr.(*ssa.FieldAddr)
			if !ok || !w.isNamed(deref(fa.X.Type()), pkg, typ) {
				return
			}
			fd := fieldName(fa.X.Type(), fa.Field)
			want, ok := lists[fd]
			if !ok {
				return
			}
			c, ok := in.Val.(*ssa.Call)
			if !ok {
				return
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return
			}
			es := elemsOf(c.Call.Args[1])
			if fieldOf(c.Call.Args[0]) != fd || len(es) != 1 || x.Val(es[0]).Key() != "$"+want {
				x.Set("wrong "+fd, "1")
			}
			x.Set("put "+fd, "1")
		}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		check := func(fd string) {
			if x.Get("put "+fd) == "" {
				x.Report(k, "%s: on this path nothing is put into %s", why, fd)
			} else if x.Get("wrong "+fd) != "" {
				x.Report(k, "%s: what is put into %s is something else", why, fd)
			}
		}
		for _, u := range ups {
			check(u.field)
		}
		for fd := range lists {
			check(fd)
		}
	}
	args := map[string]*AV{}
	for i, p := range params {
		if p != "" {
			args[f.Params[i+1].Name()] = avSym(p)
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, args, nil)
	r.Engine(e)
}

// ---- declaring

func c18DeclaredList(w *World, r *Report) {
	rule := "what-is-declared-is-kept-as-declared"
	c18Updates(w, r, rule, "core/model", "Args", "AddArg", []string{"", "@name", "@def"},
		[]update{{"defVals", "@name", "@def"}}, map[string]string{"orderedList": "@name"}, "an argument that is declared")
	c18Updates(w, r, rule, "core/model", "Args", "AddAutoMapAllArg", []string{"", "@name", "@def"},
		[]update{{"defVals", "@name", "@def"}, {"fromAutoMapAll", "@name", "true"}}, map[string]string{"orderedList": "@name"}, "an argument taken over by auto mapping")
	c18Updates(w, r, rule, "core/model", "Arg2Env", "Add", []string{"@key", "@name"},
		[]update{{"nameKeys", "@name", "@key"}, {"keyNames", "@key", "@name"}}, map[string]string{"orderedKeys": "@key"}, "an arg that is mapped to a key")

	// each abbreviation stands for the argument it is declared with
	if f := w.MethodOpt("core/model", "Args", "AddArg"); f != nil && len(f.Params) == 5 {
		k := w.FuncKey(f)
		name, abbrs := f.Params[2], f.Params[4]
		isList := func(v ssa.Value) bool {
			return v != nil && v.Type().String() == "[]string" && (v == abbrs || madeOf(v)[abbrs])
		}
		elem := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return false
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			return ok && isList(ia.X)
		}
		sp := &Spec{Name: rule, MaxDisj: 30}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if elem(v) {
				return avSym("@abbr")
			}
			return emptyValue(x, v)
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if u, ok := mu.Map.(*ssa.UnOp); ok && w.isField(u.X, "core/model", "Args", "abbrsRevIdx") && x.Val(mu.Key).Key() == "$@abbr" {
					x.Set("put", "1")
					if x.Val(mu.Value).Key() != "$@name" {
						x.Report(k+" abbr", "an abbreviation stands for something else than the argument it is declared with")
					}
				}
			}
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			lr := loopRange(to)
			if lr == nil || lr.IsMap || !isList(lr.Over) {
				return
			}
			puts := false
			for b := range loopBlocks(to) {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok && w.isField(u.X, "core/model", "Args", "abbrsRevIdx") {
							puts = true
						}
					}
				}
			}
			if !puts {
				return
			}
			r.Ok(rule, k+" abbr", w.Pos(f.Pos()), "")
			if x.Get("put") == "" && x.isEmpty("@abbr") != "true" {
				x.Report(k+" abbr", "on this path an abbreviation of an argument is not kept")
			}
			x.Set("put", "")
			x.forgetSyms("@abbr")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{name.Name(): avSym("@name")}, nil)
		r.Engine(e)
	}

	// the list of declared arguments is only ever extended at its end, or put into the order asked for
	for _, f := range w.Funcs {
		if !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || !w.isField(st.Addr, "core/model", "Args", "orderedList") {
				return
			}
			k := w.FuncKey(f)
			r.Funcs[k] = true
			good := false
			switch v := st.Val.(type) {
			case *ssa.Const:
				good = true
			case *ssa.Parameter:
				good = true
			case *ssa.Call:
				if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if u, ok := v.Call.Args[0].(*ssa.UnOp); ok && w.isField(u.X, "core/model", "Args", "orderedList") {
						good = true
					}
				} else {
					good = true // made elsewhere: not judged
				}
			}
			if !good {
				made := madeOf(st.Val)
				own := false
				for m := range made {
					if p, ok := m.(*ssa.Parameter); ok && p.Type().String() == "[]string" {
						good = true
					}
					if u, ok := m.(*ssa.UnOp); ok && w.isField(u.X, "core/model", "Args", "orderedList") {
						own = true
					}
				}
				if !own {
					good = true
				}
			}
			if good {
				r.Ok(rule, k+" orderedList", w.InstrPos(in), "")
			} else {
				r.Violation(rule, k+" orderedList", w.InstrPos(in), "the declared arguments are put into another order than the one they were declared in", nil)
			}
		})
	}
	// Names gives all of them
	if f := w.MethodOpt("core/model", "Args", "Names"); f != nil {
		k := w.FuncKey(f)
		r.Funcs[k] = true
		for _, ret := range returnsOf(f) {
			r.Ok(rule, k, w.InstrPos(ret), "")
			for m := range madeOf(ret.Results[0]) {
				if sl, ok := m.(*ssa.Slice); ok && w.isArgList(sl.X) && (sl.Low != nil || sl.High != nil) {
					if n, isN := constInt(sl.High); isN && n == 0 && sl.Low == nil {
						continue
					}
					if h := sl.High; h != nil && sl.Low == nil && lenArg(h) != nil {
						continue
					}
					r.Violation(rule, k, w.InstrPos(ret), "not all of the declared arguments are given", nil)
				}
			}
		}
	}
	// Reorder does it
	if f := w.MethodOpt("core/model", "Args", "Reorder"); f != nil {
		k := w.FuncKey(f)
		r.Funcs[k] = true
		stores := 0
		forEachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				if w.isField(in.Addr, "core/model", "Args", "orderedList") {
					stores++
				}
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && w.isArgList(ia.X) {
					stores++
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && w.isArgList(in.Call.Args[0]) {
					stores++
				}
			}
		})
		if stores == 0 {
			r.Violation(rule, k, w.Pos(f.Pos()), "the arguments are not put into the order asked for", nil)
		} else {
			r.Ok(rule, k, w.Pos(f.Pos()), "")
		}
	}
}

func returnsOf(f *ssa.Function) (out []*ssa.Return) {
	forEachInstr(f, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok && len(rt.Results) > 0 {
			out = append(out, rt)
		}
	})
	return
}

// ---- looking up

// c18Lookups: the table entry asked for is given, and if there is none, nothing.
func c18Lookups(w *World, r *Report) {
	rule := "what-is-looked-up-is-what-was-declared"
	for _, l := range []struct {
		typ, meth, field string
		val, found       int // results
	}{
		{"Args", "Realname", "abbrsRevIdx", 0, -1},
		{"Args", "RawDefVal", "defVals", 0, -1},
		{"Args", "HasArgOrAbbr", "abbrsRevIdx", -1, 0},
		{"Args", "Has", "names", -1, 0},
		{"Args", "IsFromAutoMapAll", "fromAutoMapAll", 0, -1},
		{"Arg2Env", "GetEnvKey", "nameKeys", 0, 1},
		{"Arg2Env", "Has", "keyNames", -1, 0},
	} {
		l := l
		f := w.MethodOpt("core/model", l.typ, l.meth)
		if f == nil || len(f.Params) != 2 {
			continue
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule}
		sp.Inline = func(g *ssa.Function) bool { return w.isNamedRecv(g, "core/model", l.typ) }
		isBool := false
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			lk, ok := v.(*ssa.Lookup)
			if !ok || x.Val(lk.Index).Key() != "$@name" {
				return nil
			}
			u, ok := lk.X.(*ssa.UnOp)
			if !ok || !w.isField(u.X, "core/model", l.typ, l.field) {
				return nil
			}
			x.Set("looked", "1")
			if b, ok := deref(lk.X.Type()).Underlying().(*types.Map); ok {
				if bb, ok := b.Elem().Underlying().(*types.Basic); ok && bb.Kind() == types.Bool {
					isBool = true
				}
			}
			if lk.CommaOk {
				return avTuple(avSym("@entry"), avSym("@found"))
			}
			return avSym("@entry")
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			r.Ok(rule, k, w.Pos(f.Pos()), "")
			found := x.Fact("@found")
			if l.val >= 0 && l.val < len(o.Results) && !isBool {
				v := o.Results[l.val]
				s, isStr := v.IsStr()
				switch {
				case v.K == kSym && v.Sym != "@entry":
					x.Report(k, "what is given is not the entry of this name")
				case isStr && s != "":
					x.Report(k, "what is given is not the entry of this name")
				case isStr && s == "" && found != "false":
					x.Report(k, "nothing is given though there may be an entry of this name")
				}
			}
			if l.found >= 0 && l.found < len(o.Results) {
				v := o.Results[l.found]
				switch {
				case found == "true" && x.St.Eval(v) != "true" && !(v.K == kSym && v.Sym == "@entry"):
					x.Report(k, "whether there is such an entry is not what the look at the table said")
				case v.K == kConst && (v.C == "true" || v.C == "false") && found != v.C:
					x.Report(k, "whether there is such an entry is not what the look at the table said")
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{f.Params[1].Name(): avSym("@name")}, nil)
		r.Engine(e)
	}
}

// ---- what a line sets gets into the env of its command

// c18LineSets: parsed definitions are written out whole, each as it is; those of all segments of a line.
func c18LineSets(w *World, r *Report) {
	rule := "what-a-line-sets-gets-to-its-command"
	isPE := func(t types.Type) bool { return w.isNamed(t, "core/model", "ParsedEnv") }
	// one turn per definition
	for _, l := range []struct {
		meth    string
		argsToo bool
	}{{"WriteTo", true}, {"WriteNotArgTo", false}} {
		l := l
		f := w.MethodOpt("core/model", "ParsedEnv", l.meth)
		if f == nil || len(f.Params) != 3 {
			continue
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule, MaxDisj: 30}
		sp.Inline = func(g *ssa.Function) bool { return w.isNamedRecv(g, "core/model", "ParsedEnv") }
		overSelf := func(v ssa.Value) bool {
			return isPE(v.Type())
		}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if ex, ok := v.(*ssa.Extract); ok {
				if n, ok := ex.Tuple.(*ssa.Next); ok {
					if rg, ok := n.Iter.(*ssa.Range); ok && overSelf(rg.X) {
						switch ex.Index {
						case 1:
							return avSym("@k")
						case 2:
							return avSym("@v")
						}
					}
				}
			}
			if lk, ok := v.(*ssa.Lookup); ok && overSelf(lk.X) && !lk.CommaOk && x.Val(lk.Index).Key() == "$@k" {
				return avSym("@v")
			}
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				p, q := x.Val(b.X), x.Val(b.Y)
				if p.Key() == "$@mark" {
					p, q = q, p
				}
				if p.Key() == "$@v.Val" && q.Key() == "$@mark" {
					return &AV{K: kPred, Sym: "@ismark", C: "true", Neg: b.Op == token.NEQ}
				}
			}
			return emptyValue(x, v)
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			rest := args
			switch {
			case w.callsMethod(c, "core/model", "Env", "SetEx"), w.callsMethod(c, "core/model", "Env", "Set"):
				bad := ""
				switch {
				case len(rest) < 3:
				case rest[0].K == kSym && rest[0].Sym != "@env":
					bad = "it is written to another env"
				case rest[1].Key() != "$@k":
					bad = "it is written under another key"
				case rest[2].Key() != "$@v.Val":
					bad = "another value is written"
				case len(rest) < 5:
					if x.Fact("@v.IsArg") != "false" {
						bad = "an arg is not marked as one"
					}
				default:
					for i, n := range []string{"@v.IsArg", "@v.IsSysArg"} {
						a := rest[3+i]
						if a.Key() != "$"+n && x.St.Eval(a) != x.Fact(n) || x.St.Eval(a) == "" && a.Key() != "$"+n {
							bad = "whether it is an arg is written wrong"
						}
					}
				}
				x.Set("set", "1")
				if bad != "" {
					x.Report(k, "a definition of a line does not get into the env as it is: %s", bad)
				}
				if x.Fact("@ismark") == "true" {
					x.Report(k, "the mark that deletes a key is written as its value")
				}
				return &Action{Opaque: true, Pure: true}
			case w.callsMethod(c, "core/model", "Env", "Delete"), w.callsMethod(c, "core/model", "Env", "DeleteEx"):
				if x.Fact("@ismark") != "true" {
					x.Report(k, "a key of a line is deleted though its value is not the mark for that")
				}
				if len(rest) > 1 && rest[1].Key() != "$@k" {
					x.Report(k, "another key is deleted than the one marked")
				}
				x.Set("del", "1")
				return &Action{Opaque: true, Pure: true}
			}
			return nil
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			lr := loopRange(to)
			if lr == nil || !lr.IsMap || !overSelf(lr.Over) {
				return
			}
			r.Ok(rule, k+" turn", w.Pos(f.Pos()), "")
			mark := x.Fact("@ismark")
			switch {
			case x.Get("set") != "" || x.Get("del") != "":
			case mark == "true":
				x.Report(k, "on this path a key that is marked to be deleted is not")
			case !l.argsToo && (x.Fact("@v.IsArg") == "true" || x.Fact("@v.IsSysArg") == "true"):
			default:
				x.Report(k, "on this path a definition of a line does not get into the env")
			}
			x.Set("set", "")
			x.Set("del", "")
			x.forgetSyms("@k", "@v", "@ismark", "@v.Val", "@v.IsArg", "@v.IsSysArg")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{f.Params[1].Name(): avNonNil("@env"), f.Params[2].Name(): avSym("@mark")}, nil)
		r.Engine(e)
		forEachLoop(f, func(h *ssa.BasicBlock) {
			if at := leavesEarly(h); at != nil {
				r.Violation(rule, k+" loop", w.InstrPos(at), "the walk over the definitions can end before the last one", nil)
			}
		})
	}

	// the env of a command: all segments
	if f := w.MethodOpt("core/model", "ParsedCmd", "GenCmdEnv"); f != nil && len(f.Params) == 3 {
		k := w.FuncKey(f)
		r.Funcs[k] = true
		isSegs := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if ok && w.isField(u.X, "core/model", "ParsedCmd", "Segments") {
				return true
			}
			fl, ok := v.(*ssa.Field)
			return ok && fieldName(fl.X.Type(), fl.Field) == "Segments"
		}
		isSeg := func(v ssa.Value) bool { // the env of the segment the loop is at
			if !isPE(v.Type()) {
				return false
			}
			for m := range madeOf(v) {
				if ia, ok := m.(*ssa.IndexAddr); ok && isSegs(ia.X) {
					return true
				}
			}
			return false
		}
		sp := &Spec{Name: rule, MaxDisj: 20}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			switch v := v.(type) {
			case *ssa.UnOp, *ssa.Field:
				if isSeg(v.(ssa.Value)) {
					return avSym("@segenv")
				}
			case *ssa.BinOp: // len(seg.Env) compared to 0
				l, rr, op := v.X, v.Y, v.Op
				if _, isC := l.(*ssa.Const); isC {
					l, rr, op = rr, l, flip(op)
				}
				if a := lenArg(l); a != nil && x.Val(a).Key() == "$@segenv" {
					if n, ok := constInt(rr); ok {
						switch {
						case (op == token.EQL || op == token.LEQ) && n == 0, op == token.LSS && n == 1:
							return &AV{K: kPred, Sym: "@segempty", C: "true"}
						case (op == token.NEQ || op == token.GTR) && n == 0, op == token.GEQ && n == 1:
							return &AV{K: kPred, Sym: "@segempty", C: "true", Neg: true}
						}
					}
				}
			}
			return nil
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch {
			case w.callsMethod(c, "core/model", "Env", "NewLayer"):
				if args[0].K == kSym && args[0].Sym != "@origin" {
					return nil
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@layer")}}}}
			case w.callsMethod(c, "core/model", "ParsedEnv", "WriteTo"):
				if args[0].K == kSym && args[0].Sym != "@segenv" {
					return nil
				}
				if len(args) > 1 && args[1].K == kSym && args[1].Sym != "@layer" {
					x.Report(k, "the definitions of a line are not written to the env of the command")
				}
				if len(args) > 2 && args[2].K != kUnknown && args[2].Key() != "$@mark" {
					x.Report(k, "another mark for deleting is used")
				}
				x.Set("wrote", "1")
				return &Action{Opaque: true, Pure: true}
			}
			return nil
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			lr := loopRange(to)
			if lr == nil || lr.Over == nil || !isSegs(lr.Over) {
				return
			}
			r.Ok(rule, k+" turn", w.Pos(f.Pos()), "")
			if lr.Start != nil {
				x.Report(k, "not all segments of the line are gone through")
			}
			if x.Get("wrote") == "" && x.Fact("@segempty") != "true" && x.St.IsNil(avSym("@segenv")) != "true" {
				x.Report(k, "on this path the definitions of a segment do not get into the env of the command")
			}
			x.Set("wrote", "")
			x.forgetSyms("@segenv", "@segempty")
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind == exReturn && len(o.Results) == 1 {
				if a := o.Results[0]; a.K == kConst || a.K == kSym && a.Sym != "@layer" {
					x.Report(k, "another env is given back than the one written to")
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{f.Params[1].Name(): avNonNil("@origin"), f.Params[2].Name(): avSym("@mark")}, nil)
		r.Engine(e)
		forEachLoop(f, func(h *ssa.BasicBlock) {
			if at := leavesEarly(h); at != nil {
				r.Violation(rule, k+" loop", w.InstrPos(at), "the walk over the segments can end before the last one", nil)
			}
		})
	}

	// what stands for a definition: its value, and whether it is an arg
	for name, want := range map[string][2]string{"NewParsedEnvVal": {"false", "false"}, "NewParsedEnvArgv": {"true", "false"}, "NewParsedSysArgv": {"true", "true"}} {
		f := w.FnOpt("core/model", name)
		if f == nil || len(f.Params) != 2 {
			continue
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule}
		sp.Inline = func(g *ssa.Function) bool {
			return w.inPkg(g, "core/model") && strings.HasPrefix(g.Name(), "NewParsed")
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok || x.Depth() != 1 || len(rt.Results) != 1 {
				return
			}
			r.Ok(rule, k, w.InstrPos(in), "")
			v := rt.Results[0]
			if a := x.structMember(v, "Val"); a.K == kConst || a.K == kSym && a.Sym != "@val" && strings.HasPrefix(a.Sym, "@") {
				x.Report(k, "it does not have the value given")
			}
			for i, n := range []string{"IsArg", "IsSysArg"} {
				if a := x.structMember(v, n); x.St.Eval(a) != want[i] {
					if a.K == kUnknown && x.structMember(v, "Val").K == kUnknown {
						continue // not of a shape that can be judged
					}
					x.Report(k, "%s is not %s", n, want[i])
				}
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{f.Params[0].Name(): avSym("@key"), f.Params[1].Name(): avSym("@val")}, nil)
		r.Engine(e)
	}

	// a definition that is moved to another name stays what it is
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.isNamedRecv(f, "core/model", "ParsedEnv") {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isPE(mu.Map.Type()) {
				return
			}
			k := w.FuncKey(f)
			r.Funcs[k] = true
			parts, ok := structParts(mu.Value)
			if !ok {
				return
			}
			r.Ok(rule, k+" moved", w.InstrPos(in), "")
			for _, n := range []string{"Val", "IsArg", "IsSysArg"} {
				v, has := parts[n]
				if has && v != nil && lastField(unload(v)) == n || has && fieldOfValue(v) == n {
					continue
				}
				r.Violation(rule, k+" moved", w.InstrPos(in), "a definition put under another name does not keep its "+n, nil)
			}
		})
	}
}

func unload(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

func fieldOfValue(v ssa.Value) string {
	if f, ok := v.(*ssa.Field); ok {
		return fieldName(f.X.Type(), f.Field)
	}
	return ""
}

// structParts: the values put into the fields of a struct literal
func structParts(v ssa.Value) (map[string]ssa.Value, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil, false
	}
	out := map[string]ssa.Value{}
	for _, rf := range *al.Referrers() {
		switch rf := rf.(type) {
		case *ssa.Store:
			return nil, false // a copy of another one
		case *ssa.FieldAddr:
			for _, q := range *rf.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == rf {
					n := fieldName(rf.X.Type(), rf.Field)
					if _, twice := out[n]; twice {
						return nil, false
					}
					out[n] = s.Val
				}
			}
		}
	}
	return out, len(out) > 0
}

// ---- the session file

// c18SessionFile: what goes to the file a script reads, and is read back, is the session: not the settings of the
// line of the command, and no key is left out.
func c18SessionFile(w *World, r *Report, rule string, all bool) {
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/model") || f.Parent() != nil || f.Signature.Recv() != nil ||
			f.Signature.Results().Len() != 2 || !strings.HasPrefix(f.Name(), "saveEnv") {
			continue
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || !strings.Contains(strings.ToLower(c.Call.StaticCallee().Name()), "saveenv") {
				return
			}
			r.Ok(rule, k, w.InstrPos(in), "")
			for _, a := range c.Call.Args {
				switch {
				case w.isPtrTo(a.Type(), "core/model", "Env"):
					lc, ok := a.(*ssa.Call)
					if ok && w.callsMethod(&lc.Call, "core/model", "Env", "GetLayer") {
						if s, isS := constString(lc.Call.Args[1]); !isS || s == w.layerName("EnvLayerSession") {
							continue
						}
						r.Violation(rule, k, w.InstrPos(in), "another layer than the session is written for the script", nil)
					} else if _, isP := a.(*ssa.Parameter); isP {
						r.Violation(rule, k, w.InstrPos(in), "not the session is written for the script but the env of the command: what its line sets comes back as if the script had set it for the session", nil)
					}
				case a.Type().String() == "[]string" && all:
					if ss := listLit(a); len(ss) > 0 {
						r.Violation(rule, k, w.InstrPos(in), "keys are left out of the env a script gets: "+strings.Join(ss, ", "), nil)
					}
				case a.Type().String() == "bool" && all:
					for _, b := range w.boolsOf(a, 0) {
						if b == "true" {
							r.Violation(rule, k, w.InstrPos(in), "keys that have their default value are left out of the env a script gets", nil)
						}
					}
				}
			}
		})
	}
}

func listLit(v ssa.Value) []string {
	if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			ss, _ := litStrs(al)
			return ss
		}
	}
	return nil
}

// boolsOf: the constants a flag can be, through the callers of a function
func (w *World) boolsOf(v ssa.Value, depth int) (out []string) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return []string{v.Value.ExactString()}
		}
	case *ssa.Phi:
		if depth < 4 {
			for _, e := range v.Edges {
				out = append(out, w.boolsOf(e, depth+1)...)
			}
		}
	case *ssa.Parameter:
		if depth > 3 {
			return nil
		}
		for i, p := range v.Parent().Params {
			if p != v {
				continue
			}
			for _, g := range w.Funcs {
				forEachInstr(g, func(in ssa.Instruction) {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == v.Parent() && i < len(ci.Common().Args) {
						out = append(out, w.boolsOf(ci.Common().Args[i], depth+1)...)
					}
				})
			}
		}
	}
	return
}

// c18FileSets: each line of an env file that is read sets its key, deletes it, or is an error.
func c18FileSets(w *World, r *Report) {
	rule := "each-line-of-an-env-file-sets-its-key"
	f := w.FnOpt("core/model", "EnvInput")
	if f == nil {
		return
	}
	var env, sep, mark *ssa.Parameter
	for _, p := range f.Params {
		switch {
		case w.isPtrTo(p.Type(), "core/model", "Env"):
			env = p
		case isStringType(p.Type()) && sep == nil:
			sep = p
		case isStringType(p.Type()):
			mark = p
		}
	}
	if env == nil || sep == nil || mark == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	isScan := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && fullName(&c.Call) == "(*bufio.Scanner).Scan"
	}
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.X == mark || b.Y == mark) {
			return &AV{K: kPred, Sym: "@ismark", C: "true", Neg: b.Op == token.NEQ}
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		switch {
		case w.callsMethod(c, "core/model", "Env", "Set"), w.callsMethod(c, "core/model", "Env", "SetEx"):
			if args[0].K == kSym && args[0].Sym != "@env" {
				x.Report(k, "a key read is set in another env")
			}
			if x.Fact("@ismark") == "true" {
				x.Report(k, "the mark that deletes a key is set as its value")
			}
			x.Set("done", "1")
			return &Action{Opaque: true, Pure: true}
		case w.callsMethod(c, "core/model", "Env", "Delete"), w.callsMethod(c, "core/model", "Env", "DeleteEx"):
			if x.Fact("@ismark") != "true" {
				x.Report(k, "a key read is deleted though its value is not the mark for that")
			}
			x.Set("done", "1")
			return &Action{Opaque: true, Pure: true}
		}
		return nil
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if from.Parent() != f {
			return
		}
		scans := false
		for b := range loopBlocks(to) {
			for _, in := range b.Instrs {
				scans = scans || isScan(in)
			}
		}
		if !scans {
			return
		}
		r.Ok(rule, k+" turn", w.Pos(f.Pos()), "")
		if x.Get("done") == "" {
			x.Report(k, "on this path a line of an env file neither sets nor deletes its key, and is no error")
		}
		x.Set("done", "")
		x.forgetSyms("@ismark")
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, map[string]*AV{env.Name(): avNonNil("@env")}, nil)
	r.Engine(e)
}

// ---- templates are rendered with what the command has

// c18Rendering: on the way from a command to the rendering of its flow, its values, its env and whether an incomplete rendering
// is allowed are handed on as they are; the flow that is run must be complete.
func c18Rendering(w *World, r *Report) {
	rule := "a-flow-is-rendered-with-the-args-of-its-command"
	isArgv := func(t types.Type) bool { return w.isNamed(t, "core/model", "ArgVals") }
	type rf struct{ argv, env, allow int }
	find := func(f *ssa.Function) (p rf) {
		p = rf{-1, -1, -1}
		for i, q := range f.Params {
			switch {
			case isArgv(q.Type()):
				p.argv = i
			case w.isPtrTo(q.Type(), "core/model", "Env"):
				p.env = i
			}
		}
		return
	}
	set := map[*ssa.Function]rf{}
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/model") || f.Parent() != nil || f.Signature.Results().Len() == 0 {
			continue
		}
		p := find(f)
		if p.argv < 0 || p.env < 0 {
			continue
		}
		looks := false
		forEachInstr(f, func(in ssa.Instruction) {
			if l, ok := in.(*ssa.Lookup); ok && l.X == f.Params[p.argv] {
				looks = true
			}
		})
		for i, q := range f.Params {
			if isBoolT(q.Type()) && looks && p.allow < 0 {
				p.allow = i
			}
		}
		if p.allow >= 0 {
			set[f] = p
		}
	}
	for again := true; again; {
		again = false
		for _, f := range w.Funcs {
			if _, done := set[f]; done || !w.InModule(f) || !w.inPkg(f, "core/model") || f.Parent() != nil {
				continue
			}
			p := find(f)
			if p.argv < 0 || p.env < 0 {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				q, ok := set[ci.Common().StaticCallee()]
				if !ok {
					return
				}
				for i, fp := range f.Params {
					if ci.Common().Args[q.allow] == ssa.Value(fp) {
						p.allow = i
					}
				}
			})
			if p.allow >= 0 {
				set[f] = p
				again = true
			}
		}
	}
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/model") {
			continue
		}
		starts := false
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if m := ci.Common().Method; m != nil && m.Name() == "Execute" {
					starts = true
				}
			}
		})
		me, in := set[f]
		if !in {
			me = find(f)
			me.allow = -1
		}
		if me.argv < 0 {
			continue
		}
		k := w.FuncKey(f)
		forEachInstr(f, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			q, ok := set[ci.Common().StaticCallee()]
			if !ok {
				return
			}
			r.Funcs[k] = true
			c := k + " " + ci.Common().StaticCallee().Name()
			r.Ok(rule, c, w.InstrPos(ins), "")
			if a := ci.Common().Args[q.argv]; a != ssa.Value(f.Params[me.argv]) {
				switch a.(type) {
				case *ssa.MakeMap, *ssa.Const:
					r.Violation(rule, c, w.InstrPos(ins), "the templates are not rendered with the args of the command", nil)
				}
			}
			allow := ci.Common().Args[q.allow]
			cst, isC := allow.(*ssa.Const)
			bad := isC && cst.Value != nil && cst.Value.ExactString() == "true"
			if _, isP := allow.(*ssa.Parameter); !isP && !isC {
				bad = starts || me.allow >= 0 && !madeOf(allow)[f.Params[me.allow]]
			}
			if bad && (starts || me.allow >= 0) {
				r.Violation(rule, c, w.InstrPos(ins), "a template that gets no value is left in the flow though that was not allowed", nil)
			}
		})
	}
}
