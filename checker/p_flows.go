package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: saved flows and env snapshots are not replaced or removed unasked.

func init() {
	register(&Prop{
		ID: "C10", Title: "Saved flows and snapshots are replaced only after a yes, removed only by name",
		Explain: "Every command which can write, rename or delete a file is followed path-sensitively with symbolic paths: what is known about the destination (there, not there, never asked), whether the user confirmed, whether the command name is taken, when a file is put in place or removed.",
		Assume:  []string{"no other process changes the directories between the question and the write"},
		Run:     runC10,
	})
}

const (
	flowsDir = "@env:sys·paths·flows"
	snapDir  = "@env:sys·paths·env·snapshot"
	flowExt  = "@env:strs·flow-ext"
	snapExt  = "@env:strs·env-snapshot-ext"
)

func runC10(w *World, r *Report) {
	c10Flows(w, r)
	c10Confirm(w, r)
	c10Names(w, r)
}

// nameFinders: helpers which look a command up by name and tell whether it is there
func (w *World) nameFinder(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if f.Parent() != nil || rs.Len() != 2 || rs.At(0).Type().String() != "string" || rs.At(1).Type().String() != "bool" || !w.inPkg(f, "mods/builtin") {
		return false
	}
	hit := false
	forEachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && w.callsMethod(c.Common(), "core/model", "CmdTree", "GetSub") {
			hit = true
		}
	})
	return hit
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func c10Flows(w *World, r *Report) {
	over := "overwriting-needs-a-yes-or-the-overwrite-flag"
	taken := "a-flow-never-takes-the-name-of-another-command"
	gone := "only-the-asked-for-files-are-removed"
	moved := "only-flow-files-are-moved"
	kept := "changing-the-help-keeps-the-rest-of-the-flow"
	puts := func(c *ssa.CallCommon) bool {
		if _, ok := createsFile(c); ok {
			return true
		}
		if _, ok := removesPath(c); ok {
			return true
		}
		n := fullName(c)
		return n == "os.Rename" || n == "os.Link" || n == "os.Symlink" || n == "syscall.Rename"
	}
	confirm := w.FnOpt("utils", "UserConfirm")
	mayDecline := false
	if confirm != nil {
		forEachInstr(confirm, func(in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok {
				for _, v := range rt.Results {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" && rt.Block() != confirm.Recover && len(rt.Block().Preds) > 0 {
						mayDecline = true
					}
				}
			}
		})
	}
	writesFlow := map[*ssa.Function]bool{}
	metaT := w.NamedOpt("mods/persist/meta_file", "MetaFile")
	within := func(f *ssa.Function) bool {
		if w.inPkg(f, "core/model") {
			return f.Signature.Recv() == nil && len(w.closureOf(f)) <= 15
		}
		return w.inPkg(f, "mods/builtin") || w.inPkg(f, "utils") || w.inPkg(f, "mods/persist/flow_file") || w.inPkg(f, "mods/persist/meta_file")
	}
	rel := w.RelevantIn(puts, within)
	loader := w.FnOpt("mods/persist/flow_file", "LoadFlowFile")
	saver := w.FnOpt("mods/persist/flow_file", "SaveFlowFile")
	nm := func(x *Ctx, a *AV) string { return nameSan.Replace(strName(x.St, a)) }
	hasExt := func(p, ext string) bool { return strings.HasSuffix(strings.TrimRight(p, ")"), ","+ext) }
	isFlowFile := func(p string) bool { return hasExt(p, flowExt) }
	isSnapFile := func(p string) bool { return hasExt(p, snapExt) }
	inner := func(p string) string { // the name of the command
		i := strings.Index(p, "@cmd(")
		d := 0
		for j := i; j >= 0 && j < len(p); j++ {
			switch p[j] {
			case '(':
				d++
			case ')':
				d--
				if d == 0 {
					return p[i : j+1]
				}
			}
		}
		return ""
	}
	for _, root := range w.Funcs {
		if !rel[root] || !w.isCmdFunc(root) || !w.inPkg(root, "mods/builtin") {
			continue
		}
		root := root
		where := w.FuncKey(root)
		judged := false
		sp := &Spec{Name: over, Event: func(c *ssa.CallCommon) bool {
			if puts(c) {
				return true
			}
			switch fullName(c) {
			case "os.Stat", "os.Lstat":
				return true
			}
			o := c.StaticCallee()
			return o != nil && (o == confirm || w.nameFinder(o) || w.isMethod(o, "core/model", "CmdTree", "GetSub"))
		}}
		sp.Within = within
		sp.Track = func(s string) bool { return strings.HasPrefix(s, "@staterr") || strings.HasPrefix(s, "@info") }
		sp.MaxDisj = 24
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isStringT(b.Type()) {
				// (a+b)+c and a+(b+c) are the same name
				if a := w.pathValue(x, v); a != nil {
					return a
				}
			}
			return w.pathValue(x, v)
		}
		put := func(x *Ctx, dst *AV, src *AV, what string) {
			if dst.K != kSym {
				return
			}
			d := dst.Sym
			ours := isFlowFile(d) || isSnapFile(d)
			if src != nil && x.Get("wrote "+src.Key()) == "" {
				// a file which ticat did not just write is moved
				ours = ours || !isParamSym(d)
				if src.K == kSym && strings.HasPrefix(src.Sym, "@walk(") {
					judged = true
					if strings.Contains(src.Sym, flowsDir) && x.Fact("@suffix("+nameSan.Replace(src.Sym)+","+flowExt+")") != "true" {
						x.E.rep.Violation(moved, where+" move", w.InstrPos(x.In), "something in the directory of flows is moved which is not known to be a flow file", x.St.Trace(40))
					}
					x.E.rep.Ok(moved, where, w.InstrPos(x.In), "")
				}
			}
			if !ours {
				return
			}
			judged = true
			if isFlowFile(d) {
				writesFlow[root] = true
			}
			at := x.Get("at " + nameSan.Replace(d))
			asked := x.Get("yes") != ""
			flag := false
			for k, f := range x.St.facts {
				if strings.HasPrefix(k, "@arg:") && strings.Contains(k, "overwrite") && f.Eq == "true" {
					flag = true
				}
			}
			self := x.Get("read "+nameSan.Replace(d)) != ""
			if at != "absent" && at != "dir" && !asked && !flag && !self {
				if at == "" {
					x.Report(where+" "+what, "a file is put at %s without looking whether there is one already, without a confirmation and without the overwrite flag", d)
				} else {
					x.Report(where+" "+what, "a file which exists (%s) is replaced without a confirmation and without the overwrite flag", d)
				}
			}
			x.E.rep.Ok(over, where+" "+what, w.InstrPos(x.In), d)
			if isFlowFile(d) && strings.Contains(d, "@cmd(") && !self {
				name := inner(d)
				if at == "absent" && x.Get(name) != "free" {
					x.E.rep.Violation(taken, where+" "+what, w.InstrPos(x.In), "a flow gets the name of a command which exists and is not a saved flow (nothing on this path showed that the name is free)", x.St.Trace(40))
				}
				x.E.rep.Ok(taken, where, w.InstrPos(x.In), "")
			}
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			n := fullName(c)
			if i, ok := createsFile(c); ok {
				put(x, args[i], nil, "write")
				p := args[i].Key()
				x.Set("wrote "+p, "1")
				if n == "os.Create" || n == "os.OpenFile" {
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@file"), avNil}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNil}}}}
			}
			switch n {
			case "os.Rename", "syscall.Rename", "os.Link", "os.Symlink":
				put(x, args[1], args[0], "move")
				return &Action{Alts: []Alt{{Results: []*AV{avNil}}, {Results: []*AV{avNonNil("@renerr")}, Note: "the rename fails"}}}
			case "os.Stat", "os.Lstat":
				if args[0].K != kSym {
					return nil
				}
				k := "at " + nm(x, args[0])
				is := func(v string) Alt {
					a := Alt{Apply: func(x *Ctx) { x.Set(k, v) }}
					switch v {
					case "absent":
						a.Results = []*AV{avNil, avNonNil("@staterr")}
						a.Note = "there is no " + args[0].Sym
					default:
						a.Results = []*AV{avNonNil("@info" + v), avNil}
						a.Note = "there is a " + v + " " + args[0].Sym
					}
					return a
				}
				if cur := x.Get(k); cur != "" {
					return &Action{Alts: []Alt{is(cur)}}
				}
				return &Action{Alts: []Alt{is("absent"), is("file"), is("dir")}}
			case "os.IsNotExist":
				switch {
				case args[0].K == kSym && args[0].Sym == "@staterr":
					return &Action{Alts: []Alt{{Results: []*AV{avTrue}}}}
				case args[0].K == kConst && args[0].C == "nil":
					return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
				}
			case "os.IsExist":
				return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
			case "errors.Is":
				if args[0].K == kSym && args[0].Sym == "@staterr" {
					if u, ok := c.Args[1].(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							return &Action{Alts: []Alt{{Results: []*AV{avBool(g.Name() == "ErrNotExist")}}}}
						}
					}
				}
				if args[0].K == kConst && args[0].C == "nil" {
					return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
				}
			case "path/filepath.Walk", "path/filepath.WalkDir":
				p := avSym("@walk(" + nm(x, args[0]) + ")")
				x.St.retire(func(s string) bool { return s == p.Sym }, false)
				return &Action{Invoke: args[1], InvokeArgs: []*AV{p, avNonNil("@walkinfo"), avNil}}
			}
			if i, ok := removesPath(c); ok {
				p := args[i]
				if p.K == kSym {
					d := p.Sym
					bad := ""
					switch {
					case strings.HasPrefix(d, "@walk("):
						if !strings.Contains(d, flowsDir) {
							break
						}
						judged = true
						if d != "@walk("+flowsDir+")" {
							bad = "files outside of the directory of flows are removed"
						} else if x.Fact("@suffix("+nameSan.Replace(d)+","+flowExt+")") != "true" {
							bad = "something in the directory of flows is removed which is not known to be a flow file"
						}
					case strings.Contains(d, flowsDir):
						judged = true
						if !isFlowFile(d) || !strings.Contains(d, "@cmd(@arg:") {
							bad = "what is removed is not the file of the flow which was named"
						}
					case strings.Contains(d, snapDir):
						judged = true
						if !isSnapFile(d) || !strings.Contains(d, "@arg:") {
							bad = "what is removed is not the snapshot which was named"
						}
					case d == "@env:sys·paths·data":
						bad = "the whole data directory is removed"
					}
					if bad == "" && judged && n == "os.RemoveAll" && (strings.Contains(d, flowsDir) || strings.Contains(d, snapDir)) {
						bad = "more than one file may be removed"
					}
					if bad != "" {
						x.E.rep.Violation(gone, where+" "+short(n), w.InstrPos(x.In), bad+": "+d, x.St.Trace(40))
					}
					if strings.Contains(d, flowsDir) || strings.Contains(d, snapDir) {
						x.E.rep.Ok(gone, where, w.InstrPos(x.In), d)
					}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNil}}, {Results: []*AV{avNonNil("@staterr")}, Note: "there is nothing to remove"}}}
			}
			if c.IsInvoke() && len(args) > 0 && args[0].K == kSym && c.Method.Name() == "IsDir" {
				switch args[0].Sym {
				case "@infofile":
					return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
				case "@infodir":
					return &Action{Alts: []Alt{{Results: []*AV{avTrue}}}}
				case "@walkinfo":
					return &Action{Alts: []Alt{{Results: []*AV{avFalse}}, {Results: []*AV{avTrue}}}}
				}
			}
			if callee != nil {
				switch {
				case callee == confirm:
					a := []Alt{{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("yes", "1") }, Note: "the user confirms"}}
					if mayDecline {
						a = append(a, Alt{Results: []*AV{avFalse}, Note: "the user declines"})
					}
					return &Action{Alts: a}
				case w.nameFinder(callee):
					name := ""
					for i, a := range args {
						if i < len(c.Args) && isStringT(c.Args[i].Type()) {
							name = nm(x, a)
						}
					}
					cmd := "@cmd(" + name + ")"
					if cur := x.Get(cmd); cur != "" {
						return &Action{Alts: []Alt{{Results: []*AV{avSym(cmd), avBool(cur == "taken")}}}}
					}
					return &Action{Alts: []Alt{
						{Results: []*AV{avSym(cmd), avTrue}, Apply: func(x *Ctx) { x.Set(cmd, "taken") }, Note: "the command " + name + " exists"},
						{Results: []*AV{avSym(cmd), avFalse}, Apply: func(x *Ctx) { x.Set(cmd, "free") }, Note: "the command " + name + " does not exist"},
					}}
				case callee == loader:
					p := nm(x, args[0])
					var rs []*AV
					for i := 0; i < c.Signature().Results().Len(); i++ {
						rs = append(rs, avSym("@loaded("+p+","+c.Signature().Results().At(i).Name()+")"))
					}
					return &Action{Alts: []Alt{{Results: rs, Apply: func(x *Ctx) { x.Set("read "+p, "1") }}}}
				case callee == saver:
					p := nm(x, args[0])
					if x.Get("read "+p) != "" {
						judged = true
						for i := 1; i < len(args) && i < callee.Signature.Params().Len(); i++ {
							pn := callee.Signature.Params().At(i).Name()
							if pn == "help" {
								continue
							}
							if args[i].K != kSym || args[i].Sym != "@loaded("+p+","+pn+")" {
								x.E.rep.Violation(kept, where+" "+pn, w.InstrPos(x.In), "rewriting a saved flow does not keep its '"+pn+"'", x.St.Trace(20))
							}
						}
						x.E.rep.Ok(kept, where, w.InstrPos(x.In), "")
					}
					return &Action{Inline: true}
				case metaT != nil && callee.Signature.Results().Len() == 1 && namedOf(deref(callee.Signature.Results().At(0).Type())) == metaT && w.inPkg(callee, "mods/persist/meta_file"):
					return &Action{Inline: true}
				}
				// helpers which read an argument of the command
				if w.inPkg(callee, "mods/builtin") && callee.Signature.Results().Len() == 1 && isStringOrList(callee.Signature.Results().At(0).Type()) && isArgReader(w, callee) {
					for i := len(args) - 1; i >= 0; i-- {
						if i < len(c.Args) && isStringT(c.Args[i].Type()) {
							if k, ok := args[i].IsStr(); ok {
								return &Action{Alts: []Alt{{Results: []*AV{avSym("@arg:" + nameSan.Replace(k))}}}}
							}
						}
					}
				}
				if w.inPkg(callee, "mods/builtin") && callee.Signature.Results().Len() == 1 && isStringT(callee.Signature.Results().At(0).Type()) && w.takesEnv(callee) && loopFree(callee) {
					return &Action{Inline: true}
				}
				if stringFn(callee) && w.InModule(callee) {
					return &Action{Alts: []Alt{{Results: []*AV{args[0]}}}}
				}
			}
			return w.pathCall(x, c, args)
		}
		e := NewEngine(w, r, over, sp)
		e.Run(root, nil, nil)
		if judged {
			r.Engine(e)
		}
	}
	asks := "overwriting-a-flow-quietly-has-to-be-asked-for"
	for _, s := range w.Registrations().Sites {
		for _, c := range s.Calls {
			if c.Name != "AddArg" || len(c.Args) < 2 {
				continue
			}
			n, ok := constString(c.Args[0])
			if !ok || !strings.Contains(n, "overwrite") {
				continue
			}
			for _, f := range s.Funcs {
				if !writesFlow[f] {
					continue
				}
				d, ok := constString(c.Args[1])
				if !ok {
					continue
				}
				switch strings.ToLower(d) {
				case "false", "f", "no", "n", "0", "off", "":
				default:
					r.Violation(asks, w.FuncKey(f), w.InstrPos(c.In), "an existing flow is overwritten although that was not asked for (default: "+d+")", nil)
				}
				r.Ok(asks, w.FuncKey(f), w.InstrPos(c.In), d)
			}
		}
	}
	r.Floor(over, 4)
	r.Floor(taken, 2)
	r.Floor(gone, 3)
	r.Floor(moved, 1)
	r.Floor(kept, 1)
}

func isParamSym(s string) bool { _, ok := paramOf(s); return ok }

// stringFn: a function of nothing but strings: what it returns stands for what it was given
func stringFn(f *ssa.Function) bool {
	s := f.Signature
	if s.Recv() != nil || s.Results().Len() != 1 || !isStringT(s.Results().At(0).Type()) || s.Params().Len() == 0 {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if !isStringT(t) {
			return false
		}
	}
	return true
}

// c10Confirm: what a confirmation is
func c10Confirm(w *World, r *Report) {
	rule := "a-confirmation-is-a-y-typed-by-the-user"
	f := w.FnOpt("utils", "UserConfirm")
	if f == nil {
		return
	}
	where := w.FuncKey(f)
	sp := &Spec{Name: rule}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		switch v := v.(type) {
		case *ssa.UnOp:
			if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL {
				b := x.Val(ia.X)
				if b.K == kSym && strings.HasPrefix(b.Sym, "@line") {
					return avSym("@line:char")
				}
			}
		case *ssa.Convert:
			if a := x.Val(v.X); a.K == kSym && strings.HasPrefix(a.Sym, "@line") {
				return a
			}
		case *ssa.Index:
			if a := x.Val(v.X); a.K == kSym && strings.HasPrefix(a.Sym, "@line") {
				return avSym("@line:char")
			}
		case *ssa.Lookup:
			if a := x.Val(v.X); a.K == kSym && strings.HasPrefix(a.Sym, "@line") && isStringT(v.X.Type()) {
				return avSym("@line:char")
			}
		case *ssa.Slice:
			if a := x.Val(v.X); a.K == kSym && strings.HasPrefix(a.Sym, "@line") {
				return a
			}
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		n := fullName(c)
		line := func() *AV {
			x.St.retire(func(s string) bool { return strings.HasPrefix(s, "@line") }, true)
			return avNonNil("@line")
		}
		switch {
		case strings.HasPrefix(n, "(*bufio.Reader).Read") && c.Signature().Results().Len() == 2:
			return &Action{Alts: []Alt{{Results: []*AV{line(), avNil}}, {Results: []*AV{avUnknown, avNonNil("@readerr")}, Note: "nothing more to read"}}}
		case n == "(*bufio.Scanner).Text" || n == "(*bufio.Scanner).Bytes":
			return &Action{Alts: []Alt{{Results: []*AV{line()}}}}
		case strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes."):
			if len(args) > 0 && args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@line") && c.Signature().Results().Len() == 1 {
				if c.Signature().Results().At(0).Type().String() == "bool" {
					return &Action{Alts: []Alt{{Results: []*AV{avSym("@line:is" + nameSan.Replace(args[len(args)-1].Key()))}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avSym(args[0].Sym)}}}}
			}
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		if len(o.Results) > 0 && x.St.Eval(o.Results[0]) == "false" {
			return
		}
		yes := false
		for k, f := range x.St.facts {
			if !strings.HasPrefix(k, "@line") {
				continue
			}
			v := strings.ToLower(f.Eq)
			if v == "i:121" || v == "i:89" || strings.HasPrefix(v, "s:y") || f.Eq == "true" && strings.Contains(strings.ToLower(k), "s:y") {
				yes = true
			}
		}
		if !yes {
			x.Report(where, "the confirmation is over although the user did not type a 'y'")
		}
		x.E.rep.Ok(rule, where, w.Pos(f.Pos()), "")
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	r.Floor(rule, 1)
}

// c10Names: "the command exists" is told exactly when every part of the name is found
func c10Names(w *World, r *Report) {
	rule := "a-name-is-free-only-if-the-command-is-not-there"
	for _, f := range w.Funcs {
		if !w.nameFinder(f) || !w.inPkg(f, "mods/builtin") {
			continue
		}
		f := f
		where := w.FuncKey(f)
		sp := &Spec{Name: rule}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if w.callsMethod(c, "core/model", "CmdTree", "GetSub") {
				return &Action{Alts: []Alt{
					{Results: []*AV{avNonNil("@sub")}, Apply: func(x *Ctx) { x.Set("asked", "1") }, Note: "this part of the name is found"},
					{Results: []*AV{avNil}, Apply: func(x *Ctx) { x.Set("asked", "1"); x.Set("missing", "1") }, Note: "this part of the name is not found"},
				}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || len(o.Results) != 2 || x.Get("asked") == "" {
				return
			}
			ans := x.St.Eval(o.Results[1])
			if x.Get("missing") == "" && ans != "true" {
				x.Report(where+" taken", "a command whose name is found completely is said not to exist")
			}
			if x.Get("missing") != "" && ans != "false" {
				x.Report(where+" free", "a command is said to exist although a part of its name is not found")
			}
			x.E.rep.Ok(rule, where, w.Pos(f.Pos()), "")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
}

func (w *World) takesEnv(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if w.isNamed(deref(f.Signature.Params().At(i).Type()), "core/model", "Env") {
			return true
		}
	}
	return false
}

func loopFree(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return len(f.Blocks) > 0
}

func isStringOrList(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	return isStringT(t)
}
