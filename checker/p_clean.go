package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: clearing sessions spares running ones, young ones (at start), other
// things in the directory, and sessions that were not asked for.

func init() {
	register(&Prop{
		ID: "C09", Title: "Clearing sessions spares running, young and unrelated ones",
		Explain: "Every removal below the directory of sessions is followed path-sensitively with symbolic names (which entry the path is built from, whose process was asked for, with which answer, which start time was compared): callers are followed until the guards are found. The answers of the operating system (alive, gone, no permission, no answer) are tried in turn.",
		Assume:  []string{"process ids are not reused by unrelated processes faster than sessions are cleared (a reused id only makes a session look alive)"},
		Run:     runC09,
	})
}

func removesPath(c *ssa.CallCommon) (arg int, ok bool) {
	switch fullName(c) {
	case "os.Remove", "os.RemoveAll", "syscall.Unlink", "syscall.Rmdir":
		return 0, true
	}
	return 0, false
}

const (
	errESRCH = "i:3@syscall.Errno"
	errEPERM = "i:1@syscall.Errno"
)

// processModel: what the operating system may say about a process
func (w *World) processModel(x *Ctx, c *ssa.CallCommon, args []*AV) *Action {
	mark := func(pid, how string) func(x *Ctx) {
		return func(x *Ctx) { x.Set("proc "+pid, how) }
	}
	answer := func(pid string) *Action {
		k := func(s string) *AV { return &AV{K: kConst, C: s} }
		return &Action{Alts: []Alt{
			{Results: []*AV{avNil}, Apply: mark(pid, "alive"), Note: "the process is running"},
			{Results: []*AV{k(errESRCH)}, Apply: mark(pid, "gone"), Note: "there is no such process"},
			{Results: []*AV{k(errEPERM)}, Apply: mark(pid, "alive"), Note: "the process is running and belongs to another user"},
			{Results: []*AV{avNonNil("@procerr")}, Apply: mark(pid, "unknown"), Note: "asking for the process fails"},
		}}
	}
	key := func(a *AV) string { return nameSan.Replace(strName(x.St, a)) }
	n := fullName(c)
	switch n {
	case "syscall.Kill":
		return answer(key(args[0]))
	case "os.FindProcess":
		return &Action{Alts: []Alt{
			{Results: []*AV{avNonNil("@proc(" + key(args[0]) + ")"), avNil}},
			{Results: []*AV{avNil, avNonNil("@procerr")}, Apply: mark(key(args[0]), "unknown"), Note: "asking for the process fails"},
		}}
	case "(*os.Process).Signal":
		if args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@proc(") {
			pid := strings.TrimSuffix(strings.TrimPrefix(args[0].Sym, "@proc("), ")")
			a := answer(pid)
			a.Alts = append(a.Alts, Alt{Results: []*AV{avNonNil("@procdone")}, Apply: mark(pid, "gone"), Note: "the process is finished"})
			return a
		}
	case "errors.Is":
		l, r := args[0], args[1]
		if u, ok := c.Args[1].(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Name() == "ErrProcessDone" {
				return &Action{Alts: []Alt{{Results: []*AV{avBool(l.K == kSym && l.Sym == "@procdone")}}}}
			}
		}
		if l.K == kConst && r.K == kConst {
			return &Action{Alts: []Alt{{Results: []*AV{avBool(l.C == r.C)}}}}
		}
		if l.K == kSym && (l.Sym == "@procdone" || l.Sym == "@procerr") && r.K == kConst {
			return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
		}
	}
	if c.IsInvoke() && c.Method.Name() == "Error" && len(args) > 0 {
		switch {
		case args[0].K == kSym && args[0].Sym == "@procdone":
			return &Action{Alts: []Alt{{Results: []*AV{avStr("os: process already finished")}}}}
		case args[0].K == kConst || args[0].K == kSym && args[0].Sym == "@procerr":
			return &Action{Alts: []Alt{{Results: []*AV{avStr("another error: " + args[0].Key())}}}}
		}
	}
	return nil
}

// errnoAssert: err.(syscall.Errno) on the errors of processModel
func errnoAssert(x *Ctx, v ssa.Value) *AV {
	t, ok := v.(*ssa.TypeAssert)
	if !ok || t.AssertedType.String() != "syscall.Errno" {
		return nil
	}
	a := x.Val(t.X)
	if a.K == kConst && strings.HasSuffix(a.C, "@syscall.Errno") {
		e := &AV{K: kConst, C: strings.TrimSuffix(a.C, "@syscall.Errno")}
		if t.CommaOk {
			return avTuple(e, avTrue)
		}
		return e
	}
	if a.K == kSym && (a.Sym == "@procerr" || a.Sym == "@procdone") && t.CommaOk {
		return avTuple(avInt(0), avFalse)
	}
	return nil
}

func (w *World) c09Spec(rule string) *Spec {
	sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool {
		if _, ok := removesPath(c); ok {
			return true
		}
		switch fullName(c) {
		case "syscall.Kill", "(*os.Process).Signal", "time.ParseInLocation", "time.Parse":
			return true
		}
		return false
	}}
	sp.Within = func(f *ssa.Function) bool {
		return w.inPkg(f, "core/model") || w.inPkg(f, "utils") || w.inPkg(f, "mods/builtin")
	}
	sp.Track = func(s string) bool {
		return strings.HasPrefix(s, "@proc") || strings.HasPrefix(s, "@atoi") || strings.HasPrefix(s, "@parse") || strings.HasPrefix(s, "@misread")
	}
	sp.MaxDisj = 64
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if a := errnoAssert(x, v); a != nil {
			return a
		}
		if b, ok := v.(*ssa.BinOp); ok {
			// comparison of errors
			if isErrorType(b.X.Type()) && (b.Op == token.EQL || b.Op == token.NEQ) {
				l, r := x.Val(b.X), x.Val(b.Y)
				eq := ""
				isP := func(a *AV) bool { return a.K == kSym && (a.Sym == "@procerr" || a.Sym == "@procdone") }
				switch {
				case l.K == kConst && r.K == kConst:
					return nil
				case isP(l) && r.K == kConst && r.C != "nil", isP(r) && l.K == kConst && l.C != "nil":
					eq = "false"
				case isP(l) && r.K == kSym && strings.Contains(r.Sym, "ErrProcessDone"):
					eq = "false"
					if l.Sym == "@procdone" {
						eq = "true"
					}
				}
				if eq != "" {
					return avBool((eq == "true") == (b.Op == token.EQL))
				}
			}
			// comparison of durations
			switch b.Op {
			case token.GTR, token.LSS, token.GEQ, token.LEQ:
				l, r := x.Val(b.X), x.Val(b.Y)
				if l.K == kSym && r.K == kSym && (strings.HasPrefix(l.Sym, "@sub(") || strings.HasPrefix(r.Sym, "@sub(")) {
					if b.Op == token.LSS || b.Op == token.LEQ {
						l, r = r, l
					}
					return avSym("@longer(" + nameSan.Replace(l.Sym) + "," + nameSan.Replace(r.Sym) + ")")
				}
			}
		}
		return w.pathValue(x, v)
	}
	isEntry := func(t types.Type) bool {
		s := t.String()
		return s == "io/fs.DirEntry" || s == "io/fs.FileInfo" || s == "os.DirEntry" || s == "os.FileInfo"
	}
	nextEntry := map[*ssa.BasicBlock]bool{}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		has, known := nextEntry[to]
		if !known {
			for b := range loopBlocks(to) {
				for _, in := range b.Instrs {
					switch v := in.(type) {
					case *ssa.UnOp:
						if v.Op == token.MUL && (isEntry(v.Type()) || v.Type().String() == "string") {
							if _, ok := v.X.(*ssa.IndexAddr); ok {
								has = true
							}
						}
					case ssa.CallInstruction:
						if v.Common().IsInvoke() && v.Common().Method.Name() == "Name" && isEntry(v.Common().Value.Type()) {
							has = true
						}
					}
				}
			}
			nextEntry[to] = has
		}
		if !has {
			return
		}
		// what was found out about this entry does not hold for the next one
		for k := range x.St.auto {
			if strings.HasPrefix(k, "proc ") || strings.HasPrefix(k, "parsed ") {
				delete(x.St.auto, k)
			}
		}
		for k := range x.St.facts {
			if strings.HasPrefix(k, "@before(") || strings.HasPrefix(k, "@longer(") || strings.HasPrefix(k, "@eq(") || strings.HasPrefix(k, "@match(") {
				delete(x.St.facts, k)
			}
		}
	}
	return sp
}

func (w *World) c09Call(x *Ctx, c *ssa.CallCommon, args []*AV) *Action {
	if a := w.processModel(x, c, args); a != nil {
		return a
	}
	nm := func(a *AV) string { return nameSan.Replace(strName(x.St, a)) }
	one := func(a ...*AV) *Action { return &Action{Alts: []Alt{{Results: a}}} }
	switch fullName(c) {
	case "time.ParseInLocation", "time.Parse":
		from := nm(args[1])
		label := "@parse("
		if !w.readsSessionTime(x, c, args) {
			label = "@misread("
		}
		return &Action{Alts: []Alt{
			{Results: []*AV{avSym(label + from + ")"), avNil}, Apply: func(x *Ctx) { x.Set("parsed "+from, "1") }},
			{Results: []*AV{avUnknown, avNonNil("@timeerr")}, Apply: func(x *Ctx) { x.Set("parsed "+from, "") }, Note: "the name has no start time"},
		}}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		from := nm(args[0])
		return &Action{Alts: []Alt{
			{Results: []*AV{avSym("@atoi(" + from + ")"), avNil}, Apply: func(x *Ctx) { x.Set("parsed "+from, "1") }},
			{Results: []*AV{avUnknown, avNonNil("@numerr")}, Apply: func(x *Ctx) { x.Set("parsed "+from, "") }, Note: "the name has no process id"},
		}}
	case "time.Now":
		return one(avSym("@now"))
	case "(time.Time).Add":
		return one(avSym("@add(" + nm(args[0]) + "," + nm(args[1]) + ")"))
	case "(time.Time).Sub":
		return one(avSym("@sub(" + nm(args[0]) + "," + nm(args[1]) + ")"))
	case "time.Since":
		return one(avSym("@sub(@now," + nm(args[0]) + ")"))
	case "(time.Time).Before":
		return one(avSym("@before(" + nm(args[0]) + "," + nm(args[1]) + ")"))
	case "(time.Time).After":
		return one(avSym("@before(" + nm(args[1]) + "," + nm(args[0]) + ")"))
	case "os.ReadDir":
		return &Action{Alts: []Alt{{Results: []*AV{avUnknown, avNil}}, {Results: []*AV{avNil, avNonNil("@ioerr")}}}}
	}
	return w.pathCall(x, c, args)
}

// readsSessionTime: a start time is read in the form and the time zone in which
// the names of sessions are made
func (w *World) readsSessionTime(x *Ctx, c *ssa.CallCommon, args []*AV) bool {
	layouts, utc := map[string]bool{}, false
	for _, f := range w.Funcs {
		pid := false
		ls := map[string]bool{}
		u := false
		if !w.inPkg(f, "core/model") {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch fullName(ci.Common()) {
			case "os.Getpid":
				pid = true
			case "(time.Time).Format":
				if s, ok := constString(ci.Common().Args[1]); ok {
					ls[s] = true
				}
			case "(time.Time).UTC":
				u = true
			}
		})
		if pid {
			for l := range ls {
				layouts[l] = true
			}
			utc = utc || u
		}
	}
	if len(layouts) == 0 {
		return true // not made in a form this rule knows
	}
	if l, ok := constString(c.Args[0]); ok && !layouts[l] {
		return false
	}
	local := false
	if len(c.Args) > 2 {
		if u, ok := c.Args[2].(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Name() == "Local" {
				local = true
			} else if !ok {
				return true
			}
		} else {
			return true
		}
	}
	return local != utc
}

const sessionsDir = "@env:sys·paths·sessions"

// sessionOf: the entry below the directory of sessions a path stands for
func sessionOf(path string) (name string, ok bool) {
	if !strings.Contains(path, sessionsDir) {
		return "", false
	}
	pre := "@join(" + sessionsDir + ","
	if strings.HasPrefix(path, pre) && strings.HasSuffix(path, ")") {
		return path[len(pre) : len(path)-1], true
	}
	return "", true
}

// pidFits: pid belongs to the session whose directory is called name
func pidFits(name, pid string) bool {
	if pid == "@atoi(@part(@split("+name+"),i:1))" {
		return true
	}
	if strings.HasSuffix(name, "·DirName") {
		return pid == strings.TrimSuffix(name, "·DirName")+"·Pid"
	}
	return false
}

func runC09(w *World, r *Report) {
	c09Remove(w, r)
	c09Liveness(w, r)
	c09List(w, r)
	c09ById(w, r)
	c09Force(w, r)
	c09Shape(w, r)
}

// servesCommands: f is reached from command bodies by direct calls
func (w *World) servesCommands(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		f = topFunc(f)
		if seen[f] {
			return false
		}
		seen[f] = true
		if w.isCmdFunc(f) && w.inPkg(f, "mods/builtin") {
			return true
		}
		for _, c := range w.callerFns()[f] {
			if up(c) {
				return true
			}
		}
		return false
	}
	return up(f)
}

func c09Remove(w *World, r *Report) {
	rule := "only-sessions-which-ended-are-removed"
	age := "only-expired-sessions-are-removed-at-start"
	roots := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := removesPath(c.Common()); ok {
					roots[topFunc(f)] = true
				}
			}
		})
	}
	for _, root := range sortFns(w, roots) {
		w.climb(r, root, 4, func(root *ssa.Function, r *Report) bool {
			sp := w.c09Spec(rule)
			where := w.FuncKey(root)
			auto := !w.servesCommands(root)
			judged := false
			sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
				if i, ok := removesPath(c); ok {
					path := args[i]
					if path.K != kSym {
						return &Action{Opaque: true, Pure: true}
					}
					name, ours := sessionOf(path.Sym)
					if !ours {
						// a helper which is handed its path: judged in its callers
						if _, isParam := paramOf(path.Sym); isParam && len(w.callerFns()[root]) > 0 && x.Fn == root {
							for _, cf := range w.callerFns()[root] {
								if w.mentionsSessions(cf) {
									x.Report(where+" helper", "a path handed in is removed")
								}
							}
						}
						return &Action{Opaque: true, Pure: true}
					}
					judged = true
					if name == "" || name == "=s:" {
						x.Report(where+" root", "more than one session's directory is removed: %s", path.Sym)
						return &Action{Opaque: true, Pure: true}
					}
					gone, alive := false, false
					for k, v := range x.St.auto {
						if !strings.HasPrefix(k, "proc ") {
							continue
						}
						if pidFits(name, k[5:]) {
							if v == "gone" {
								gone = true
							} else {
								alive = true
							}
						}
					}
					forced := x.Fact("@arg:remove-running") == "true"
					if !(gone && !alive) && !forced {
						x.Report(where+" running", "a session is removed which may still be running (nothing on this path showed that the process of this very session is gone)")
					}
					if strings.HasPrefix(name, "@name(") {
						p := func(i string) string { return x.Get("parsed @part(@split(" + name + ")," + i + ")") }
						if p("i:0") == "" || p("i:1") == "" {
							x.Report(where+" foreign", "something in the directory of sessions is removed whose name is not that of a session")
						}
					}
					if auto {
						ts := "@parse(@part(@split(" + name + "),i:0))"
						dur := "@env:sys·sessions·keep-status-duration"
						ok := false
						for k, f := range x.St.facts {
							if f.Eq != "true" {
								continue
							}
							if strings.HasPrefix(k, "@before(@add("+ts+","+dur+"),") && !strings.Contains(strings.TrimPrefix(k, "@before(@add("+ts), "@parse") ||
								strings.HasPrefix(k, "@before("+ts+",@add(@now,") ||
								strings.HasPrefix(k, "@longer(@sub(") && strings.HasSuffix(k, ","+ts+"),"+dur+")") && !strings.HasPrefix(k, "@longer(@sub(@parse") {
								ok = true
							}
						}
						if !ok {
							x.E.rep.Violation(age, where+" young", w.InstrPos(x.In), "a session younger than the time sessions are kept is removed at the start of another", x.St.Trace(40))
						}
						x.E.rep.Ok(age, where, w.InstrPos(x.In), "")
					}
					x.E.rep.Ok(rule, where+" "+short(fullName(c)), w.InstrPos(x.In), name)
					return &Action{Opaque: true, Pure: true}
				}
				if callee != nil && w.InModule(callee) && w.returnsSessions(callee) {
					return &Action{Opaque: true}
				}
				return w.c09Call(x, c, args)
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(root, nil, nil)
			if judged {
				r.Engine(e)
			}
			return judged
		})
	}
	r.Floor(rule, 2)
	r.Floor(age, 1)
}

func (w *World) returnsSessions(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if w.isNamed(deref(t), "core/model", "SessionStatus") {
			return true
		}
	}
	return false
}

func (w *World) mentionsSessions(f *ssa.Function) bool {
	hit := false
	forEachInstr(f, func(in ssa.Instruction) {
		var rands [12]*ssa.Value
		for _, op := range in.Operands(rands[:0]) {
			if op != nil && *op != nil {
				if s, ok := constString(*op); ok && s == "sys.paths.sessions" {
					hit = true
				}
			}
		}
	})
	return hit
}

func paramOf(sym string) (string, bool) {
	if strings.HasPrefix(sym, "p:") && !strings.ContainsAny(sym[2:], ".[%") {
		return sym[2:], true
	}
	return "", false
}

// the helpers which tell whether a process is running say "no" only when it is gone
func c09Liveness(w *World, r *Report) {
	rule := "a-process-counts-as-gone-only-if-it-is"
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) || !w.inPkg(f, "utils") || f.Signature.Params().Len() != 1 {
			continue
		}
		if f.Signature.Results().Len() != 1 || lastBoolIdx(f.Signature) != 0 {
			continue
		}
		if b, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		f := f
		asked := false
		sp := w.c09Spec(rule)
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if a := w.processModel(x, c, args); a != nil {
				asked = true
				return a
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || !asked {
				return
			}
			st := x.Get("proc p:" + f.Params[0].Name())
			switch x.St.Eval(o.Results[0]) {
			case "false":
				if st != "gone" {
					x.Report(w.FuncKey(f)+" gone", "a process is taken for gone while it is %s", map[string]string{"alive": "running", "unknown": "possibly running (asking failed)", "": "not asked for"}[st])
				}
			case "true":
			default:
				x.Report(w.FuncKey(f)+" undecided", "the answer does not follow from that of the system")
			}
		}
		tmp := NewReport(r.Prop)
		e := NewEngine(w, tmp, rule, sp)
		e.Run(f, nil, nil)
		if !asked {
			continue
		}
		r.Engine(e)
		for _, v := range tmp.Finds {
			r.Violation(v.Rule, v.Construct, v.Pos, v.Msg, v.Trace)
		}
		r.Ok(rule, w.FuncKey(f), w.Pos(f.Pos()), "")
	}
}

// a session that is listed carries the process id and the start time of its own directory
func c09List(w *World, r *Report) {
	rule := "a-listed-session-is-what-its-directory-says"
	st := w.NamedOpt("core/model", "SessionStatus")
	if st == nil {
		return
	}
	roots := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && w.isField(s.Addr, "core/model", "SessionStatus", "DirName") {
				roots[topFunc(f)] = true
			}
		})
	}
	for _, root := range sortFns(w, roots) {
		w.climb(r, root, 2, func(root *ssa.Function, r *Report) bool {
			return w.c09ListRun(r, rule, st, root, false)
		})
		// the function which chooses the sessions: the first one up the callers
		// whose directory names are not handed in
		for f, n := root, 0; f != nil && n < 3; n++ {
			tmp := NewReport(r.Prop)
			w.c09ListRun(tmp, rule, st, f, true)
			if len(tmp.Finds) == 1 && strings.HasSuffix(tmp.Finds[0].Construct, " handed in") {
				callers := map[*ssa.Function]bool{}
				for _, c := range w.callerFns()[f] {
					callers[topFunc(c)] = true
				}
				delete(callers, f)
				f = nil
				for _, c := range sortFns(w, callers) {
					f = c
				}
				continue
			}
			for _, v := range tmp.Finds {
				r.Violation(v.Rule, v.Construct, v.Pos, v.Msg, v.Trace)
			}
			break
		}
	}
	r.Floor(rule, 1)
}

func (w *World) c09ListRun(r *Report, rule string, st *types.Named, root *ssa.Function, idRule bool) bool {
	where := w.FuncKey(root)
	report := func(x *Ctx, what, format string, args ...interface{}) {
		if (what == "id" || what == "handed in") == idRule {
			x.Report(where+" "+what, format, args...)
		}
	}
	sp := w.c09Spec(rule)
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if callee != nil && w.InModule(callee) {
			for i := 0; i < callee.Signature.Results().Len(); i++ {
				if n := namedOf(deref(callee.Signature.Results().At(i).Type())); n != nil && n != st && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), w.ModPath) {
					return &Action{Opaque: true}
				}
			}
		}
		if callee != nil && w.InModule(callee) && callee.Signature.Recv() != nil && callee.Signature.Results().Len() == 1 && lastBoolIdx(callee.Signature) == 0 && len(args) == 2 {
			if sl, ok := callee.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok && sl.Elem().String() == "string" {
				x.Set("filter", "1")
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("parsed match", "yes") }}, {Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("parsed match", "no") }, Note: "the session does not match"}}}
			}
		}
		return w.c09Call(x, c, args)
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !w.isNamed(deref(fa.X.Type()), "core/model", "SessionStatus") {
			return
		}
		v := nameSan.Replace(strName(x.St, x.Val(s.Val)))
		switch fieldName(fa.X.Type(), fa.Field) {
		case "DirName":
			x.Set("dir", v)
			if x.Get("parsed match") == "no" {
				report(x, "filter", "a session is listed which does not match what was searched for")
			}
			if _, ok := paramOf(v); ok && len(w.callerFns()[root]) > 0 {
				report(x, "handed in", "the name of the directory is handed in")
				return
			}
			for _, p := range root.Params {
				if p.Type().String() != "string" || x.Fact("p:"+p.Name()) == "s:" || x.Fact("p:"+p.Name()+"%len") == "i:0" {
					continue
				}
				if v == "p:"+p.Name() {
					continue
				}
				a, b := v, "p:"+p.Name()
				if a > b {
					a, b = b, a
				}
				if x.Fact("@eq("+a+","+b+")") != "true" {
					report(x, "id", "a session is listed whose directory is not the one asked for")
				}
			}
		case "Pid":
			if x.Get("dir") != "" && !pidFits(x.Get("dir"), v) {
				report(x, "pid", "a session is listed with a process id that is not that of its directory (%s)", v)
			}
			if x.Get("dir") != "" && (x.Get("parsed @part(@split("+x.Get("dir")+"),i:0)") == "" || x.Get("parsed @part(@split("+x.Get("dir")+"),i:1)") == "") {
				report(x, "foreign", "something is listed as a session whose name is not that of a session")
			}
			x.E.rep.Ok(rule, where, w.InstrPos(in), "")
		case "Running":
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(root, nil, nil)
	r.Engine(e)
	return r.CountRule(rule) > 0
}

// commands that take the id of a session act on that session
func c09ById(w *World, r *Report) {
	rule := "an-id-stands-for-that-session"
	list := w.FnOpt("core/model", "ListSessions")
	if list == nil {
		return
	}
	var idIdx = -1
	for i, p := range list.Params {
		if p.Type().String() == "string" {
			idIdx = i
		}
	}
	if idIdx < 0 {
		return
	}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) || !w.inPkg(f, "mods/builtin") || f.Parent() != nil {
			continue
		}
		usesId := false
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, a := range c.Common().Args {
				if s, ok := constString(a); ok && s == "session-id" {
					usesId = true
				}
			}
		})
		if !usesId {
			continue
		}
		f := f
		where := w.FuncKey(f)
		hit := false
		sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "", list.Name()) }}
		sp.Inline = func(g *ssa.Function) bool {
			return w.inPkg(g, "mods/builtin") && (w.Relevant(sp.Event)[g] || isArgReader(w, g) || stringToString(g))
		}
		sp.Value = w.pathValue
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if callee == list {
				hit = true
				id := args[idIdx]
				empty := ""
				if k, ok := x.St.ConstOf(id); ok {
					empty = "no"
					if k == "s:" {
						empty = "yes"
					}
				} else if id.K == kSym {
					for _, n := range x.St.facts[id.Sym].Ne {
						if n == "s:" {
							empty = "no"
						}
					}
					if l, ok := x.St.facts[id.Sym+"%len"]; ok {
						for _, n := range l.Ne {
							if n == "i:0" {
								empty = "no"
							}
						}
						if l.Eq != "" && l.Eq != "i:0" {
							empty = "no"
						}
					}
				}
				if empty != "no" {
					x.Report(where, "an id that is (or becomes) empty matches any session: one that was not asked for is removed or run again")
				}
				x.E.rep.Ok(rule, where, w.InstrPos(x.In), "")
				return &Action{Alts: []Alt{{Results: []*AV{avUnknown, avUnknown}}}}
			}
			switch fullName(c) {
			case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.Replace":
				n := "@trim(" + nameSan.Replace(strName(x.St, args[0])) + ")"
				return &Action{Alts: []Alt{{Results: []*AV{avSym(n)}}}}
			}
			return w.pathCall(x, c, args)
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		if hit {
			r.Engine(e)
		}
	}
}

func stringToString(f *ssa.Function) bool {
	s := f.Signature
	return s.Results().Len() == 1 && s.Results().At(0).Type().String() == "string" && s.Params().Len() >= 1 && s.Params().Len() <= 2 && s.Params().At(0).Type().String() == "string"
}

// isArgReader: a helper which reads an argument
func isArgReader(w *World, f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if w.isNamed(f.Signature.Params().At(i).Type(), "core/model", "ArgVals") && !w.isCmdFunc(f) {
			return f.Signature.Results().Len() >= 1 && isStringOrList(f.Signature.Results().At(0).Type())
		}
	}
	return false
}

// removing running sessions has to be asked for
func c09Force(w *World, r *Report) {
	rule := "removing-a-running-session-has-to-be-asked-for"
	for _, s := range w.Registrations().Sites {
		for _, c := range s.Calls {
			if c.Name != "AddArg" || len(c.Args) < 2 {
				continue
			}
			if n, ok := constString(c.Args[0]); !ok || n != "remove-running" {
				continue
			}
			name := "?"
			if len(s.Funcs) > 0 {
				name = w.FuncKey(s.Funcs[0])
			}
			d, ok := constString(c.Args[1])
			if !ok {
				continue
			}
			switch strings.ToLower(d) {
			case "false", "f", "no", "n", "0", "off", "":
			default:
				r.Violation(rule, name, w.InstrPos(c.In), "running sessions are removed although that was not asked for (default: "+d+")", nil)
			}
			r.Ok(rule, name, w.InstrPos(c.In), d)
		}
	}
}
