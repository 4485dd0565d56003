package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: what is saved survives a failed or interrupted save, and reads back.

func init() {
	register(&Prop{
		ID: "C08", Title: "A save is all or nothing, and what was saved is what is loaded",
		Explain: "Every function that creates or truncates a file is followed path-sensitively (typestate of the new file: written completely, put in place by renaming, errors reported) with each operation on the file failing in turn; readers are followed to see that a failed read is reported; writers and readers of the same file are compared part by part.",
		Run:     runC08,
	})
}

func runC08(w *World, r *Report) {
	c08Atomic(w, r)
	c08Readers(w, r)
	c08Filter(w, r)
	c08RepoList(w, r)
	c08FlowFile(w, r)
	c08Faithful(w, r)
	w.lineFormats(r, "values-survive-line-breaks", w.closureOf(w.Fn("core/model", "SaveEnvToFile")),
		"a value of the environment that contains a line break is written unescaped into the line-based env file: the file cannot be loaded")
}

// createsFile: a call that creates a file, or empties one that is there
func createsFile(c *ssa.CallCommon) (path int, ok bool) {
	switch fullName(c) {
	case "os.Create":
		return 0, true
	case "os.WriteFile", "io/ioutil.WriteFile":
		return 0, true
	case "os.OpenFile":
		const oAppend, oTrunc, oExcl, oCreate = 0x400, 0x200, 0x80, 0x40
		fl, ok := constInt(c.Args[1])
		if ok && (fl&oAppend != 0 && fl&oTrunc == 0 || fl&oExcl != 0 || fl&(oTrunc|oCreate) == 0 && fl&3 == 0) {
			return 0, false
		}
		return 0, true
	case "os.Truncate":
		return 0, true
	}
	return 0, false
}

func isOsFile(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

func (w *World) saveRoots() ([]*ssa.Function, map[*ssa.Function]*ssa.Function) {
	has := func(f *ssa.Function, p func(c *ssa.CallCommon) bool) bool {
		hit := false
		for g := range w.closureOf(f) {
			if !w.InModule(g) {
				continue
			}
			forEachInstr(g, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && p(c.Common()) {
					hit = true
				}
			})
		}
		return hit
	}
	isRename := func(c *ssa.CallCommon) bool { return fullName(c) == "os.Rename" }
	callers := w.callerFns()
	roots := map[*ssa.Function]bool{}
	origin := map[*ssa.Function]*ssa.Function{}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		creates := false
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := createsFile(c.Common()); ok && !w.onlyHistory(c) {
					creates = true
				}
			}
		})
		if !creates {
			continue
		}
		// the nearest functions which also put a file in place
		cur := []*ssa.Function{topFunc(f)}
		seen := map[*ssa.Function]bool{}
		any := false
		for d := 0; d < 4 && len(cur) > 0; d++ {
			var next []*ssa.Function
			for _, g := range cur {
				if seen[g] {
					continue
				}
				seen[g] = true
				if has(g, isRename) {
					roots[g] = true
					origin[g] = f
					any = true
					continue
				}
				for _, c := range callers[g] {
					if h := topFunc(c); pkgOf(h) == pkgOf(f) {
						next = append(next, h)
					}
				}
			}
			cur = next
		}
		if !any {
			g := topFunc(f)
			roots[g] = true
			origin[g] = f
		}
	}
	var out []*ssa.Function
	for f := range roots {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return w.FuncKey(out[i]) < w.FuncKey(out[j]) })
	return out, origin
}

// onlyHistory: the file is handed to the line editor for its history
func (w *World) onlyHistory(c ssa.CallInstruction) bool {
	v, ok := c.(ssa.Value)
	if !ok {
		return false
	}
	hist := false
	other := false
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 8 || v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Extract:
				if isOsFile(u.Type()) {
					walk(u, d+1)
				}
			case *ssa.MakeInterface:
				walk(u, d+1)
			case *ssa.Phi:
				walk(u, d+1)
			case ssa.CallInstruction:
				n := fullName(u.Common())
				switch {
				case strings.HasSuffix(n, ".WriteHistory"):
					hist = true
				case strings.HasSuffix(n, "Close"):
				default:
					other = true
				}
			case *ssa.DebugRef:
			default:
				other = true
			}
		}
	}
	walk(v, 0)
	return hist && !other
}

func c08Atomic(w *World, r *Report) {
	rule := "the-old-version-stays-until-the-new-is-complete"
	roots, _ := w.saveRoots()
	writesFile := func(c *ssa.CallCommon) bool {
		n := fullName(c)
		if strings.HasPrefix(n, "(*os.File).Write") || n == "(*os.File).Sync" || n == "(*os.File).Truncate" {
			return true
		}
		switch n {
		case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString", "io.Copy", "(*bufio.Writer).Flush":
			return true
		}
		return strings.HasPrefix(n, "(*bufio.Writer).")
	}
	for _, root := range roots {
		root := root
		where := w.FuncKey(root)
		sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool {
			_, ok := createsFile(c)
			return ok || fullName(c) == "os.Rename" || writesFile(c) || fullName(c) == "bufio.NewWriter"
		}}
		sp.Within = func(f *ssa.Function) bool { return pkgOf(f) == pkgOf(root) || w.inPkg(f, "utils") }
		sp.Track = func(s string) bool { return strings.HasPrefix(s, "@") }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if b, ok := v.(*ssa.BinOp); ok && b.Op.String() == "+" {
				if t, ok := b.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
					l, rr := x.Val(b.X), x.Val(b.Y)
					if _, ok := l.IsStr(); ok {
						if _, ok := rr.IsStr(); ok {
							return nil
						}
					}
					return avSym("@cat(" + l.Key() + "," + rr.Key() + ")")
				}
			}
			return nil
		}
		isOurs := func(a *AV) string {
			if a != nil && a.K == kSym {
				if strings.HasPrefix(a.Sym, "@newfile") {
					return "file"
				}
				if strings.HasPrefix(a.Sym, "@newbuf") {
					return "buf"
				}
			}
			return ""
		}
		errAlts := func(c *ssa.CallCommon, ok, bad func(x *Ctx), note string) *Action {
			res := c.Signature().Results()
			mk := func(e *AV) []*AV {
				var rs []*AV
				for i := 0; i < res.Len(); i++ {
					if isErrorType(res.At(i).Type()) {
						rs = append(rs, e)
					} else {
						rs = append(rs, avUnknown)
					}
				}
				return rs
			}
			return &Action{Alts: []Alt{{Results: mk(avNil), Apply: ok}, {Results: mk(avNonNil("@ioerr")), Apply: bad, Note: note + " fails"}}}
		}
		created := 0
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			n := fullName(c)
			if pi, ok := createsFile(c); ok {
				if ci, ok := x.In.(ssa.CallInstruction); ok && w.onlyHistory(ci) {
					return &Action{Opaque: true, Pure: true}
				}
				created++
				path := args[pi].Key()
				x.Set("at", w.InstrPos(x.In))
				if n == "os.OpenFile" || n == "os.Create" {
					return &Action{Alts: []Alt{
						{Results: []*AV{avNonNil("@newfile"), avNil}, Apply: func(x *Ctx) { x.Set("tmp", path); x.Set("renamed", "") }},
						{Results: []*AV{avNil, avNonNil("@ioerr")}, Apply: func(x *Ctx) { x.Set("failed", "1") }, Note: n + " fails"},
					}}
				}
				return errAlts(c, func(x *Ctx) { x.Set("tmp", path); x.Set("renamed", "") }, func(x *Ctx) { x.Set("tmp", path); x.Set("failed", "1"); x.Set("werr", "1") }, n)
			}
			if n == "os.Rename" {
				if x.Get("tmp") == "" {
					return nil
				}
				if args[0].Key() != x.Get("tmp") {
					return nil // another file is moved
				}
				if x.Get("werr") != "" {
					x.Report(where+" incomplete", "a file that was not written completely (a write failed) replaces the old version")
				}
				if x.Get("unflushed") != "" {
					x.Report(where+" unflushed", "the file replaces the old version before what was buffered is written to it")
				}
				if args[1].Key() == args[0].Key() {
					x.Report(where+" same", "the new version is written over the old one")
				}
				return errAlts(c, func(x *Ctx) { x.Set("renamed", "1") }, func(x *Ctx) { x.Set("failed", "1") }, n)
			}
			if n == "bufio.NewWriter" || n == "bufio.NewWriterSize" {
				if isOurs(args[0]) == "file" {
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@newbuf")}}}}
				}
				return nil
			}
			ours := ""
			for _, a := range args {
				if o := isOurs(a); o != "" {
					ours = o
				}
			}
			if ours == "" {
				return nil
			}
			if writesFile(c) {
				if x.Get("renamed") != "" && ours == "file" {
					x.Report(where+" late", "the file is written to after it replaced the old version")
				}
				bad := func(x *Ctx) { x.Set("werr", "1"); x.Set("failed", "1") }
				if strings.HasSuffix(n, ".Flush") {
					return errAlts(c, func(x *Ctx) { x.Set("unflushed", "") }, func(x *Ctx) { x.Set("unflushed", ""); bad(x) }, n)
				}
				if ours == "buf" {
					// errors of a buffered writer stick until it is flushed
					return errAlts(c, func(x *Ctx) { x.Set("unflushed", "1") }, func(x *Ctx) { x.Set("unflushed", "1") }, n)
				}
				return errAlts(c, nil, bad, n)
			}
			if strings.HasPrefix(n, "(*os.File)") {
				return &Action{Opaque: true, Pure: true}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			reported := false
			for i := 0; i < root.Signature.Results().Len() && i < len(o.Results); i++ {
				if isErrorType(root.Signature.Results().At(i).Type()) && x.St.IsNil(o.Results[i]) == "false" {
					reported = true
				}
			}
			if reported {
				return
			}
			if x.Get("tmp") != "" && x.Get("renamed") == "" {
				x.Report(where+" in place", "a saved file is emptied and written in place, or its new version is never put in place: what was saved before is lost when the save is cut off (opened at %s)", x.Get("at"))
			}
			if x.Get("failed") != "" {
				x.Report(where+" unreported", "a save that failed is not reported")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, nil, nil)
		r.Engine(e)
		if created == 0 {
			r.Violation(rule, where+" unfollowed", w.Pos(root.Pos()), "the creation of the file was not reached", nil)
		}
		r.Ok(rule, where, w.Pos(root.Pos()), "")
	}
	r.Floor(rule, 1)
}

func c08Readers(w *World, r *Report) {
	rule := "a-failed-read-is-reported"
	for _, root := range w.Funcs {
		if len(root.Blocks) == 0 || !w.InModule(root) {
			continue
		}
		root := root
		uses := false
		forEachInstr(root, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && fullName(c.Common()) == "(*bufio.Scanner).Scan" {
				uses = true
			}
		})
		if !uses {
			continue
		}
		where := w.FuncKey(root)
		sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool { return strings.HasPrefix(fullName(c), "(*bufio.Scanner).") }}
		sp.Within = func(f *ssa.Function) bool { return pkgOf(f) == pkgOf(root) }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch fullName(c) {
			case "(*bufio.Scanner).Buffer":
				if n, ok := constInt(c.Args[2]); !ok || n >= 1<<26 {
					x.Set("long", "1")
				}
				return &Action{Opaque: true, Pure: true}
			case "(*bufio.Scanner).Scan":
				if x.Get("long") == "" {
					x.Report(where+" long lines", "a line longer than 64KB, which can be saved, cannot be loaded")
				}
				return &Action{Alts: []Alt{{Results: []*AV{avTrue}}, {Results: []*AV{avFalse}}, {Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("rerr", "1") }, Note: "reading fails"}}}
			case "(*bufio.Scanner).Err":
				if x.Get("rerr") != "" {
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@readerr")}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNil}}}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || x.Get("rerr") == "" {
				return
			}
			for i := 0; i < root.Signature.Results().Len() && i < len(o.Results); i++ {
				if isErrorType(root.Signature.Results().At(i).Type()) && x.St.IsNil(o.Results[i]) == "false" {
					return
				}
			}
			x.Report(where+" silent", "when reading fails in the middle of a file, what was read so far is taken for all of it")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, nil, nil)
		r.Engine(e)
		r.Ok(rule, where, w.Pos(root.Pos()), "")
	}
}

// keys of one run are not saved
var runtimeKeys = []string{"session", "sys.stack", "sys.stack-depth", "sys.session.x", "sys.interact", "sys.interact.inside", "sys.breakpoint.here.now", "sys.breakpoint.at",
	"sys.execute-wait-sec", "sys.event.x", "sys.paths.x", "strs.x", "display.height", "display.width.max", "display.executor.displayed"}

func sliceConsts(v ssa.Value) []string {
	var out []string
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, u2 := range *ia.Referrers() {
				if st, ok := u2.(*ssa.Store); ok {
					if s, ok := constString(st.Val); ok {
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

func c08Filter(w *World, r *Report) {
	rule := "keys-of-one-run-are-not-saved"
	save := w.Fn("core/model", "SaveEnvToFile")
	where := w.FuncKey(save)
	// the prefixes that reach Env.Flatten
	var got []string
	found := false
	sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Env", "Flatten") }}
	sp.Within = func(f *ssa.Function) bool { return w.inPkg(f, "core/model") }
	sp.Track = func(s string) bool { return strings.HasPrefix(s, "@") }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if cs := sliceConsts(v); len(cs) > 0 {
			sort.Strings(cs)
			return avNonNil("@list:" + strings.Join(cs, "\x00"))
		}
		if g, ok := derefGlobalSlice(w, v); ok {
			return avNonNil("@list:" + strings.Join(g, "\x00"))
		}
		return nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			var all []string
			for _, a := range args {
				if a.K == kSym && strings.HasPrefix(a.Sym, "@list:") {
					all = append(all, strings.Split(a.Sym[6:], "\x00")...)
				}
			}
			if len(all) > 0 {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@list:" + strings.Join(all, "\x00"))}}}}
			}
			return nil
		}
		if w.callsMethod(c, "core/model", "Env", "Flatten") {
			found = true
			var list []string
			for _, a := range args {
				if a.K == kSym && strings.HasPrefix(a.Sym, "@list:") {
					list = strings.Split(a.Sym[6:], "\x00")
				}
			}
			got = list
			for _, k := range runtimeKeys {
				ok := false
				for _, p := range list {
					if p != "" && strings.HasPrefix(k, p) {
						ok = true
					}
				}
				if !ok {
					x.Report(where+" "+k, "'%s', which belongs to one run, is saved with the environment and comes back in later runs", k)
				}
			}
			return &Action{Opaque: true, Pure: true}
		}
		return nil
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(save, nil, nil)
	r.Engine(e)
	if !found {
		r.Violation(rule, where, w.Pos(save.Pos()), "the environment is saved without leaving out the keys of the run", nil)
	}
	for _, k := range runtimeKeys {
		r.Ok(rule, k, w.Pos(save.Pos()), fmt.Sprintf("left out by one of %d prefixes", len(got)))
	}
}

// derefGlobalSlice: the constants of a package-level list of strings
func derefGlobalSlice(w *World, v ssa.Value) ([]string, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), w.ModPath) {
		return nil, false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	var out []string
	forEachInstr(init, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
			out = sliceConsts(st.Val)
		}
	})
	sort.Strings(out)
	return out, len(out) > 0
}

// ---- the list of repos ----

// fieldOf: the field of RepoInfo a value is made from
func (w *World) fieldsIn(v ssa.Value, typ *types.Named, d int, out map[string]bool) {
	if d > 12 || v == nil {
		return
	}
	switch x := v.(type) {
	case *ssa.Field:
		if namedOf(x.X.Type()) == typ {
			out[fieldName(x.X.Type(), x.Field)] = true
			return
		}
		w.fieldsIn(x.X, typ, d+1, out)
	case *ssa.FieldAddr:
		if namedOf(deref(x.X.Type())) == typ {
			out[fieldName(x.X.Type(), x.Field)] = true
			return
		}
		w.fieldsIn(x.X, typ, d+1, out)
	case *ssa.UnOp:
		w.fieldsIn(x.X, typ, d+1, out)
	case *ssa.MakeInterface:
		w.fieldsIn(x.X, typ, d+1, out)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			w.fieldsIn(a, typ, d+1, out)
		}
	case *ssa.BinOp:
		w.fieldsIn(x.X, typ, d+1, out)
		w.fieldsIn(x.Y, typ, d+1, out)
	}
}

func arrayStores(v ssa.Value) map[int64]ssa.Value {
	out := map[int64]ssa.Value{}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return out
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return out
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			if i, ok := constInt(ia.Index); ok {
				for _, u2 := range *ia.Referrers() {
					if st, ok := u2.(*ssa.Store); ok {
						out[i] = st.Val
					}
				}
			}
		}
	}
	return out
}

func c08RepoList(w *World, r *Report) {
	rule := "the-list-of-repos-reads-back"
	typ := w.Named("mods/persist/hub_meta", "RepoInfo")
	wr := w.Fn("mods/persist/hub_meta", "WriteReposInfoFile")
	rd := w.Fn("mods/persist/hub_meta", "ReadReposInfoFile")
	var order []string
	note := func(vals map[int64]ssa.Value) {
		var idx []int
		for i := range vals {
			idx = append(idx, int(i))
		}
		sort.Ints(idx)
		var o []string
		for _, i := range idx {
			fs := map[string]bool{}
			w.fieldsIn(vals[int64(i)], typ, 0, fs)
			if len(fs) == 1 {
				n := sortedKeys(fs)[0]
				o = append(o, n)
				v := vals[int64(i)]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				_, call := v.(*ssa.Call)
				if n == "HelpStr" && !call {
					r.Violation(rule, "HelpStr as it is", w.Pos(wr.Pos()), "the help of a repo, any text, is written as it is between separators: a separator or line break in it makes the list unreadable", nil)
				}
			}
		}
		if len(o) > len(order) {
			order = o
		}
	}
	for f := range w.closureOf(wr) {
		if pkgOf(f) != pkgOf(wr) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch fullName(c.Common()) {
			case "fmt.Fprintf", "fmt.Sprintf", "fmt.Fprint", "fmt.Fprintln", "strings.Join":
				for _, a := range c.Common().Args {
					note(arrayStores(a))
				}
			}
		})
	}
	// reader: which position each field is read from
	pos := map[string]int{}
	for f := range w.closureOf(rd) {
		if pkgOf(f) != pkgOf(rd) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(deref(fa.X.Type())) != typ {
				return
			}
			var find func(v ssa.Value, d int) int
			find = func(v ssa.Value, d int) int {
				if d > 8 {
					return -1
				}
				switch x := v.(type) {
				case *ssa.UnOp:
					if ia, ok := x.X.(*ssa.IndexAddr); ok {
						if i, ok := constInt(ia.Index); ok {
							return int(i)
						}
					}
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if i := find(a, d+1); i >= 0 {
							return i
						}
					}
				}
				return -1
			}
			if i := find(st.Val, 0); i >= 0 {
				pos[fieldName(fa.X.Type(), fa.Field)] = i
			}
		})
	}
	n := typ.Underlying().(*types.Struct).NumFields()
	if len(order) < n || len(pos) < n {
		// written in a way that is not taken apart here
		r.Ok(rule, "fields", w.Pos(wr.Pos()), "not recognised, not judged")
		return
	}
	for i, f := range order {
		if pos[f] != i {
			r.Violation(rule, f, w.Pos(wr.Pos()), fmt.Sprintf("'%s' of a repo is written as part %d of its line but read from part %d", f, i, pos[f]), nil)
		} else {
			r.Ok(rule, f, w.Pos(wr.Pos()), fmt.Sprintf("part %d", i))
		}
	}
	// the number of parts that is demanded
	forEachInstr(rd, func(in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op.String() != "!=" && b.Op.String() != "==" {
			return
		}
		if c, ok := b.X.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if k, ok := constInt(b.Y); ok && k > 1 && int(k) != len(order) {
					r.Violation(rule, "parts", w.InstrPos(in), fmt.Sprintf("%d parts are expected of the %d that are written", k, len(order)), nil)
				}
			}
		}
	})
}

// ---- flow files ----

func c08FlowFile(w *World, r *Report) {
	rule := "flow-files-keep-their-parts"
	save := w.Fn("mods/persist/flow_file", "SaveFlowFile")
	load := w.Fn("mods/persist/flow_file", "LoadFlowFile")
	isSet := func(c *ssa.CallCommon) bool {
		return w.callsMethod(c, "mods/persist/meta_file", "Section", "Set") || w.callsMethod(c, "mods/persist/meta_file", "Section", "SetMultiLineVal")
	}
	isGet := func(c *ssa.CallCommon) bool {
		for _, m := range []string{"Get", "GetMultiLineVal", "GetUnTrim"} {
			if w.callsMethod(c, "mods/persist/meta_file", "Section", m) {
				return true
			}
		}
		return w.callsMethod(c, "mods/persist/meta_file", "MetaFile", "Get")
	}
	var from func(v ssa.Value, d int, seen map[ssa.Value]bool, out map[string]bool)
	from = func(v ssa.Value, d int, seen map[ssa.Value]bool, out map[string]bool) {
		if v == nil || d > 12 || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			out[x.Name()] = true
		case *ssa.Phi:
			for _, e := range x.Edges {
				from(e, d+1, seen, out)
			}
		case *ssa.Call:
			if isGet(x.Common()) {
				if s, ok := constString(x.Call.Args[1]); ok {
					out["key:"+s] = true
				}
				return
			}
			for _, a := range x.Call.Args {
				from(a, d+1, seen, out)
			}
		case *ssa.BinOp:
			from(x.X, d+1, seen, out)
			from(x.Y, d+1, seen, out)
		case *ssa.Extract:
			from(x.Tuple, d+1, seen, out)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok {
						from(st.Val, d+1, seen, out)
					}
				}
			}
		}
	}
	// key each parameter is saved under
	saved := map[string]string{}
	forEachInstr(save, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok || !isSet(c.Common()) {
			return
		}
		k, ok := constString(c.Common().Args[1])
		if !ok {
			return
		}
		ps := map[string]bool{}
		from(c.Common().Args[2], 0, map[ssa.Value]bool{}, ps)
		for p := range ps {
			saved[p] = k
		}
	})
	loaded := map[int]map[string]bool{}
	forEachInstr(load, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		for i, v := range ret.Results {
			if loaded[i] == nil {
				loaded[i] = map[string]bool{}
			}
			from(v, 0, map[ssa.Value]bool{}, loaded[i])
		}
	})
	consts := map[string]bool{}
	for _, f := range w.Funcs {
		if w.inPkg(f, "mods/persist/mod_meta") {
			forEachInstr(f, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if s, ok := constString(*op); ok {
							consts[s] = true
						}
					}
				}
			})
		}
	}
	off := len(save.Params) - load.Signature.Results().Len()
	for i, p := range save.Params {
		k := saved[p.Name()]
		if k == "" {
			if i >= off {
				r.Violation(rule, "parameter "+fmt.Sprint(i-off), w.Pos(save.Pos()), fmt.Sprintf("part '%s' of a flow file is not saved", p.Name()), nil)
			}
			continue
		}
		if !consts[k] {
			r.Violation(rule, "registered "+k, w.Pos(save.Pos()), fmt.Sprintf("'%s' of a saved flow is not looked at when the flow is loaded as a command", k), nil)
		}
		if j := i - off; j >= 0 && loaded[j] != nil {
			if !loaded[j]["key:"+k] {
				r.Violation(rule, k, w.Pos(load.Pos()), fmt.Sprintf("'%s' of a flow file is saved, but result %d of loading it is read from %s", k, j, strings.Join(sortedKeys(loaded[j]), ", ")), nil)
			} else {
				r.Ok(rule, k, w.Pos(load.Pos()), "")
			}
		}
	}
	// where a loaded file is saved again, every part is passed on or replaced by the user's
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.InModule(f) {
			continue
		}
		var loads []*ssa.Call
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == load {
				loads = append(loads, c)
			}
		})
		if len(loads) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != save {
				return
			}
			for i := off; i < len(c.Call.Args); i++ {
				if ex, ok := c.Call.Args[i].(*ssa.Extract); ok && ex.Tuple == ssa.Value(loads[0]) {
					key := w.FuncKey(f) + " part " + save.Params[i].Name()
					if ex.Index != i-off {
						r.Violation(rule, key, w.InstrPos(in), fmt.Sprintf("part %d of the loaded flow file is saved as part %d", ex.Index, i-off), nil)
					} else {
						r.Ok(rule, key, w.InstrPos(in), "")
					}
				} else if s, ok := constString(c.Call.Args[i]); ok && s == "" {
					r.Violation(rule, w.FuncKey(f)+" part "+save.Params[i].Name(), w.InstrPos(in), "a part of the loaded flow file is dropped when it is saved again", nil)
				}
			}
		})
	}
	r.Floor(rule, 5)
}
