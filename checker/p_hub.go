package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: the list of repos keeps what it holds, disabled repos stay unused,
// directories of the user are not deleted.

func init() {
	register(&Prop{
		ID: "C11", Title: "The hub keeps its repos, uses only enabled ones, deletes only its own",
		Explain: "Each hub command is followed with one arbitrary repo of the list singled out: which lists hold it (through loops, appends and in-place cuts), what is known about its switch, its address and its path when it is loaded, removed, switched or left out of the list that is written.",
		Run:     runC11,
	})
}

type hubCtx struct {
	w      *World
	t      *types.Named
	reader map[*ssa.Function]bool
	writer map[*ssa.Function]bool
	loads  map[*ssa.Function]bool
	purge  map[*ssa.Function]bool
	// how the map of known repos is keyed
	keyForm string
}

func (h *hubCtx) isInfo(t types.Type) bool { return h.t != nil && namedOf(t) == h.t }

func (h *hubCtx) isList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && h.isInfo(s.Elem())
}

func newHub(w *World) *hubCtx {
	h := &hubCtx{w: w, t: w.NamedOpt("mods/persist/hub_meta", "RepoInfo"), reader: map[*ssa.Function]bool{}, writer: map[*ssa.Function]bool{}}
	if h.t == nil {
		return h
	}
	opens := w.Relevant(func(c *ssa.CallCommon) bool {
		switch fullName(c) {
		case "os.Open", "os.ReadFile", "io/ioutil.ReadFile", "os.OpenFile", "os.Create", "os.WriteFile", "io/ioutil.WriteFile":
			return true
		}
		return false
	})
	for _, f := range w.Funcs {
		if f.Parent() != nil || !w.inPkg(f, "mods/persist/hub_meta") || !opens[f] {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if h.isList(f.Signature.Results().At(i).Type()) {
				h.reader[f] = true
			}
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if h.isList(f.Signature.Params().At(i).Type()) && !h.reader[f] {
				h.writer[f] = true
			}
		}
	}
	for f := range h.reader {
		forEachInstr(f, func(in ssa.Instruction) {
			if m, ok := in.(*ssa.MapUpdate); ok {
				if c, ok := m.Key.(*ssa.Call); ok && w.callsMethod(c.Common(), h.pkg(), "RepoAddr", "Str") {
					h.keyForm = "@str("
				}
			}
		})
	}
	h.loads = w.Relevant(func(c *ssa.CallCommon) bool {
		o := calleeObj(c)
		return o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "mods/persist/mod_meta")
	})
	h.purge = w.Relevant(func(c *ssa.CallCommon) bool { _, ok := removesPath(c); return ok })
	return h
}

// decides: a helper whose answer about a repo or a list has to be known
func (h *hubCtx) decides(f *ssa.Function) bool {
	if !h.usesList(f) {
		return false
	}
	s := f.Signature
	for i := 0; i < s.Results().Len(); i++ {
		t := s.Results().At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				return true
			}
			if b.Info()&types.IsString != 0 {
				plain := true
				for j := 0; j < s.Params().Len(); j++ {
					if _, ok := s.Params().At(j).Type().Underlying().(*types.Pointer); ok {
						plain = false
					}
				}
				if plain {
					return true
				}
			}
			continue
		}
		if h.isList(t) || h.isInfo(deref(t)) {
			return true
		}
	}
	if s.Results().Len() == 0 {
		set := false
		forEachInstr(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if h.isInfo(st.Val.Type()) || h.w.isField(st.Addr, h.pkg(), "RepoInfo", "OnOff") {
					if _, ok := st.Addr.(*ssa.Alloc); !ok {
						set = true
					}
				}
			}
		})
		return set
	}
	return false
}

func (h *hubCtx) usesList(f *ssa.Function) bool {
	s := f.Signature
	if r := s.Recv(); r != nil && h.isInfo(deref(r.Type())) {
		return true
	}
	for i := 0; i < s.Params().Len(); i++ {
		if t := s.Params().At(i).Type(); h.isList(t) || h.isInfo(deref(t)) {
			return true
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		if t := s.Results().At(i).Type(); h.isList(t) || h.isInfo(deref(t)) {
			return true
		}
	}
	return false
}

// loopHead: the header of the loop whose counter v is
func loopHead(v ssa.Value) *ssa.BasicBlock {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if _, ok := b.X.(*ssa.Phi); ok {
			v = b.X
		}
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return nil
	}
	for _, q := range p.Block().Preds {
		if p.Block().Dominates(q) {
			return p.Block()
		}
	}
	return nil
}

func headKey(b *ssa.BasicBlock) string { return b.Parent().Name() + "#" + b.String() }

const theRepo = "@g"

// holds: does the list hold the repo singled out? "yes", "no" or "?"
func (h *hubCtx) holds(x *Ctx, a *AV) string {
	if a == nil {
		return "?"
	}
	if a.K == kConst {
		return "no"
	}
	if a.K == kSym && strings.HasPrefix(a.Sym, "@L") {
		return x.Get("has " + a.Sym)
	}
	if a.K == kAddr || a.K == kSym && isCell(a.Sym) {
		r := "no"
		for k, v := range x.St.heap {
			if strings.HasPrefix(k, a.Sym+"[") && v.K == kSym && v.Sym == theRepo {
				r = "yes"
			}
		}
		return r
	}
	return "?"
}

func (h *hubCtx) newList(x *Ctx, v ssa.Value, has string) *AV {
	n := "@L:" + x.E.symName(v)
	x.Set("has "+n, has)
	return avNonNil(n)
}

// elemOf: (list, key of the element) if v is the address of an element of a list
func (h *hubCtx) elemOf(x *Ctx, v *ssa.IndexAddr) (list *AV, key string, head *ssa.BasicBlock) {
	if !h.isList(v.X.Type()) {
		return nil, "", nil
	}
	l := x.Val(v.X)
	if l.K != kSym || !strings.HasPrefix(l.Sym, "@L") {
		return nil, "", nil
	}
	hd := loopHead(v.Index)
	if hd == nil {
		return l, "", nil
	}
	return l, "elem " + l.Sym + " " + x.Val(v.Index).Key() + "@" + headKey(hd), hd
}

func (h *hubCtx) spec(r *Report, root *ssa.Function) *Spec {
	w := h.w
	lost := "no-repo-gets-lost"
	sp := &Spec{Name: lost, MaxDisj: 4, SameCopies: true}
	sp.Event = func(c *ssa.CallCommon) bool {
		f := c.StaticCallee()
		return f != nil && (h.reader[f] || h.writer[f])
	}
	rel := w.RelevantIn(sp.Event, func(f *ssa.Function) bool { return w.inPkg(f, "mods/builtin") })
	sp.Inline = func(f *ssa.Function) bool {
		if h.reader[f] || h.writer[f] || w.inPkg(f, "cli/display") {
			return false
		}
		return rel[f] || h.decides(f) || (h.purge[f] || h.loads[f] && h.usesList(f)) && w.inPkg(f, "mods/builtin") && f.Signature.Results().Len() == 0
	}
	sp.Track = func(s string) bool { return strings.HasPrefix(s, "@") }
	where := w.FuncKey(root)
	matched := func(x *Ctx) bool {
		if x.Get("all") != "" || x.Get("matched") != "" {
			return true
		}
		for k, f := range x.St.facts {
			if f.Eq == "true" && strings.Contains(k, theRepo) && (strings.HasPrefix(k, "@eq(") || strings.HasPrefix(k, "@contains(")) {
				return true
			}
			// nothing to search for: all of them
			if !strings.Contains(k, theRepo) && (strings.HasSuffix(k, "%len") && f.Eq == "i:0" || f.Eq == "s:") {
				return true
			}
		}
		return false
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		switch v := v.(type) {
		case *ssa.Slice:
			if !h.isList(v.Type()) || v.Low == nil && v.High == nil {
				return nil
			}
			l := x.Val(v.X)
			if l.K == kSym && strings.HasPrefix(l.Sym, "@L") {
				n := h.newList(x, v, h.part(x, v))
				x.Set("alias "+n.Sym, l.Sym)
				return n
			}
		case *ssa.MakeSlice:
			if h.isList(v.Type()) {
				return h.newList(x, v, "no")
			}
		case *ssa.UnOp:
			if v.Op == token.MUL && h.isInfo(v.Type()) {
				a := x.Val(v.X)
				if a.K == kAddr && isCell(a.Sym) && x.St.heap[a.Sym] == nil {
					for k := range x.St.heap {
						if hasPathPrefix(k, a.Sym) && k != a.Sym {
							return avSym(a.Sym)
						}
					}
				}
			}
		case *ssa.Lookup:
			if m := x.Val(v.X); m.K == kSym && m.Sym == "@known" {
				a := avSym("@in(" + nameSan.Replace(strName(x.St, x.Val(v.Index))) + ")")
				if v.CommaOk {
					return avTuple(a, a)
				}
				return a
			}
		case *ssa.BinOp:
			if v.Op == token.EQL || v.Op == token.NEQ {
				if _, ok := v.X.Type().Underlying().(*types.Struct); ok {
					l, r := x.Val(v.X), x.Val(v.Y)
					nm := func(a *AV, v ssa.Value) string {
						if a.K == kSym {
							return a.Sym
						}
						return x.E.symName(v)
					}
					if l.K == kSym || r.K == kSym {
						a, b := nm(l, v.X), nm(r, v.Y)
						if a > b {
							a, b = b, a
						}
						return &AV{K: kPred, Sym: "@eq(" + nameSan.Replace(a) + "," + nameSan.Replace(b) + ")", C: "true", Neg: v.Op == token.NEQ}
					}
				}
			}
			// strings.Index(a, b) >= 0
			l := x.Val(v.X)
			if l.K == kSym && strings.HasPrefix(l.Sym, "@index(") {
				k, ok := x.St.ConstOf(x.Val(v.Y))
				is := func(op token.Token, c string, neg bool) *AV {
					if v.Op == op && ok && k == c {
						return &AV{K: kPred, Sym: "@contains(" + l.Sym[7:], C: "true", Neg: neg}
					}
					return nil
				}
				for _, a := range []*AV{is(token.GEQ, "i:0", false), is(token.LSS, "i:0", true), is(token.NEQ, "i:-1", false), is(token.EQL, "i:-1", true), is(token.GTR, "i:-1", false)} {
					if a != nil {
						return a
					}
				}
			}
		}
		return w.pathValue(x, v)
	}
	sp.Split = func(x *Ctx, v ssa.Value) []Alt {
		switch v := v.(type) {
		case *ssa.IndexAddr:
			l, key, hd := h.elemOf(x, v)
			if l == nil || hd == nil {
				return nil
			}
			seen := "seen " + l.Sym + "@" + headKey(hd)
			g := &AV{K: kAddr, Sym: theRepo}
			switch x.Get(key) {
			case "g":
				return []Alt{{Results: []*AV{g}}}
			case "o":
				return nil
			}
			o := &AV{K: kAddr, Sym: x.E.symName(v)}
			oth := Alt{Results: []*AV{o}, Apply: func(x *Ctx) { x.St.define(o.Sym); x.Set(key, "o") }}
			if h.holds(x, l) != "yes" || x.Get(seen) != "" {
				return []Alt{oth}
			}
			return []Alt{{Results: []*AV{g}, Apply: func(x *Ctx) { x.Set(key, "g"); x.Set(seen, "1") }}, oth}
		case *ssa.BinOp:
			// the bound of a loop over a list
			var bound, idx ssa.Value
			switch v.Op {
			case token.LSS, token.NEQ:
				idx, bound = v.X, v.Y
			case token.GTR:
				idx, bound = v.Y, v.X
			default:
				return nil
			}
			c, ok := bound.(*ssa.Call)
			if !ok {
				return nil
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || !h.isList(c.Call.Args[0].Type()) {
				return nil
			}
			hd := loopHead(idx)
			if hd == nil {
				return nil
			}
			l := x.Val(c.Call.Args[0])
			if l.K != kSym || !strings.HasPrefix(l.Sym, "@L") {
				return nil
			}
			more := Alt{Results: []*AV{avTrue}}
			if h.holds(x, l) == "yes" && x.Get("seen "+l.Sym+"@"+headKey(hd)) == "" {
				return []Alt{more}
			}
			return []Alt{more, {Results: []*AV{avFalse}}}
		}
		return nil
	}
	onG := func(x *Ctx) bool {
		for k, v := range x.St.auto {
			if v == "g" && strings.HasPrefix(k, "elem ") {
				return true
			}
		}
		return false
	}
	if h.loads[root] && !h.writes(root) {
		sp.Exit = func(x *Ctx, o *Outcome) {
			rule := "enabled-repos-are-loaded"
			if o.Kind != exReturn || o.St.auto["has @L0"] == "" {
				return
			}
			f := o.St.facts[theRepo+".OnOff"]
			off := f.Eq != "" && f.Eq != "s:on"
			for _, n := range f.Ne {
				off = off || n == "s:on"
			}
			if o.St.auto["loaded"] == "" && !off {
				r.Violation(rule, where, w.Pos(root.Pos()), "the command may end without the commands of an enabled repo being loaded", o.St.Trace(40))
			}
			r.Ok(rule, where, w.Pos(root.Pos()), "")
		}
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if onG(x) {
			if matched(x) {
				x.Set("matched", "1")
			}
			for k := range x.St.facts {
				if strings.HasPrefix(k, "@contains(") {
					delete(x.St.facts, k)
				}
			}
		}
		h.dropDead(x)
		for k := range x.St.auto {
			if strings.HasPrefix(k, "elem ") && strings.HasSuffix(k, "@"+headKey(to)) {
				delete(x.St.auto, k)
			}
		}
		for k := range x.St.facts {
			if !strings.Contains(k, theRepo) && (strings.HasPrefix(k, "@in(") || strings.HasPrefix(k, "@eq(") || strings.HasPrefix(k, "@contains(")) {
				delete(x.St.facts, k)
			}
		}
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Jump, *ssa.If:
			b := in.Block()
			for _, s := range b.Succs {
				if s.Dominates(b) {
					continue
				}
				for k := range x.St.auto {
					if (strings.HasPrefix(k, "elem ") || strings.HasPrefix(k, "seen ")) && strings.HasSuffix(k, "@"+headKey(s)) {
						delete(x.St.auto, k)
					}
				}
			}
		case *ssa.Return:
			if h.usesList(in.Parent()) {
				for _, p := range in.Parent().Params {
					if p.Type().String() == "string" {
						a := x.Val(p)
						if a.K == kSym && (x.Fact(a.Sym) == "s:" || x.Fact(a.Sym+"%len") == "i:0") {
							x.Set("all", "1")
						}
					}
				}
			}
		case *ssa.Store:
			a := x.Val(in.Addr)
			if h.isInfo(in.Val.Type()) && a.K == kAddr && a.Sym == theRepo {
				if v := x.Val(in.Val); v.K == kSym && v.Sym == theRepo && x.Get("flip") != "" {
					x.Set("flip", "kept")
				}
			}
			if w.isField(in.Addr, h.pkg(), "RepoInfo", "OnOff") && a.K == kAddr {
				base := strings.TrimSuffix(a.Sym, ".OnOff")
				orig := x.St.heap[base]
				mine := base == theRepo || orig != nil && orig.K == kSym && orig.Sym == theRepo
				if !mine {
					return
				}
				if !matched(x) {
					x.Report(where+" switch", "a repo is enabled or disabled that was not asked for")
				}
				if base == theRepo {
					x.Set("flip", "kept")
				} else {
					x.Set("flip", "copy")
				}
				x.E.rep.Ok("a-repo-is-switched-only-if-asked-for", where, w.InstrPos(in), "")
			}
		}
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		one := func(a ...*AV) *Action { return &Action{Alts: []Alt{{Results: a}}} }
		nm := func(a *AV) string { return nameSan.Replace(strName(x.St, a)) }
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch {
			case b.Name() == "append" && h.isList(c.Signature().Results().At(0).Type()):
				return h.appended(x, c, args, where)
			case b.Name() == "copy" && h.isList(c.Args[0].Type()):
				if args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@L") {
					x.Set("has "+args[0].Sym, h.holds(x, args[1]))
				}
			}
			return nil
		}
		if callee != nil && h.reader[callee] {
			var rs []*AV
			res := callee.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				switch t := res.At(i).Type(); {
				case h.isList(t):
					l := avNonNil("@L0")
					x.Set("has @L0", "yes")
					rs = append(rs, l)
				case isMapType(t):
					rs = append(rs, avNonNil("@known"))
				case isErrorType(t):
					rs = append(rs, avNil)
				default:
					rs = append(rs, avUnknown)
				}
			}
			return one(rs...)
		}
		if callee != nil && h.writer[callee] {
			for i, p := range c.Args {
				if !h.isList(p.Type()) {
					continue
				}
				x.E.rep.Ok(lost, where+" "+callee.Name(), w.InstrPos(x.In), h.holds(x, args[i]))
				switch h.holds(x, args[i]) {
				case "no":
					if x.Get("has @L0") == "" {
						continue
					}
					off := false
					f := x.St.facts[theRepo+".OnOff"]
					for _, n := range f.Ne {
						if n == "s:on" {
							off = true
						}
					}
					off = off || f.Eq != "" && f.Eq != "s:on"
					switch {
					case !h.purge[root]:
						x.Report(where+" lost", "a repo is missing from the list that is written")
					case !off:
						x.Report(where+" lost", "a repo which is (or may be) enabled is missing from the list that is written")
					case !matched(x):
						x.Report(where+" unasked", "a repo which was not asked for is missing from the list that is written")
					}
				case "yes":
					if x.Get("flip") == "copy" {
						x.Report(where+" unsaved", "the new state of a repo does not get into the list that is written")
					}
				}
			}
			return &Action{Opaque: true, Pure: true}
		}
		if i, ok := removesPath(c); ok {
			a := args[i]
			if a.K == kSym && a.Sym == theRepo+".Path" {
				rule := "only-directories-of-the-hub-are-deleted"
				remote := false
				for _, k := range []string{theRepo + ".Addr.Addr%len", theRepo + ".Addr.Addr", "@str(@g·Addr)%len", "@str(@g·Addr)"} {
					for _, n := range x.St.facts[k].Ne {
						if n == "i:0" || n == "s:" {
							remote = true
						}
					}
				}
				if !remote {
					x.E.rep.Violation(rule, where, w.InstrPos(x.In), "the directory of a repo is deleted which may be a local directory of the user", x.St.Trace(40))
				}
				if h.writes(root) {
					f := x.St.facts[theRepo+".OnOff"]
					off := f.Eq != "" && f.Eq != "s:on"
					for _, n := range f.Ne {
						off = off || n == "s:on"
					}
					if !off {
						x.E.rep.Violation(rule, where+" enabled", w.InstrPos(x.In), "the directory of an enabled repo is deleted", x.St.Trace(40))
					}
					if !matched(x) {
						x.E.rep.Violation(rule, where+" unasked", w.InstrPos(x.In), "the directory of a repo is deleted which was not asked for", x.St.Trace(40))
					}
				}
				x.E.rep.Ok(rule, where, w.InstrPos(x.In), "")
			}
			return &Action{Opaque: true, Pure: true}
		}
		if callee != nil && h.loads[callee] && !rel[callee] && h.usesList(callee) {
			about := false
			for _, a := range args {
				if a.K == kSym && a.Sym == theRepo {
					about = true
				}
			}
			if !about {
				return &Action{Opaque: true, Pure: true}
			}
		}
		if callee != nil && h.loads[callee] && !h.usesList(callee) && !rel[callee] {
			for _, a := range args {
				if a.K == kSym && a.Sym == theRepo+".Path" {
					rule := "disabled-repos-are-not-loaded"
					if x.Fact(theRepo+".OnOff") != "s:on" {
						x.E.rep.Violation(rule, where, w.InstrPos(x.In), "the commands of a repo are loaded which may be disabled", x.St.Trace(40))
					}
					x.E.rep.Ok(rule, where, w.InstrPos(x.In), "")
					x.Set("loaded", "1")
				}
			}
			return &Action{Opaque: true}
		}
		if callee != nil && callee.Name() == "Str" && w.callsMethod(c, "mods/persist/hub_meta", "RepoAddr", "Str") {
			return one(avSym("@str(" + nm(args[0]) + ")"))
		}
		switch fullName(c) {
		case "strings.Index", "strings.LastIndex", "strings.Contains":
			n := nm(args[0]) + "," + nm(args[1])
			if !strings.Contains(n, theRepo) && onG(x) {
				n += "," + theRepo
			}
			if fullName(c) == "strings.Contains" {
				return one(avSym("@contains(" + n + ")"))
			}
			return one(avSym("@index(" + n + ")"))
		}
		if callee != nil && (rel[callee] || h.usesList(callee)) {
			for i, a := range args {
				if a.K == kConst && a.C == "s:" && i < len(callee.Params) && callee.Params[i].Type().String() == "string" {
					x.Set("all", "1")
				}
			}
		}
		return w.pathCall(x, c, args)
	}
	return sp
}

// dropDead forgets about lists nothing refers to any more
func (h *hubCtx) dropDead(x *Ctx) {
	live := map[string]bool{}
	mark := func(a *AV) {
		if a != nil && a.K == kSym {
			live[a.Sym] = true
		}
	}
	for _, f := range x.St.stack {
		for _, a := range f.vals {
			mark(a)
		}
	}
	for _, a := range x.St.heap {
		mark(a)
	}
	for k := range x.St.auto {
		f := strings.Fields(k)
		switch f[0] {
		case "has", "alias", "seen", "elem":
			n := f[1]
			if i := strings.LastIndex(n, "@"); i > 0 {
				n = n[:i]
			}
			if !live[n] && n != "@L0" {
				delete(x.St.auto, k)
			}
		}
	}
}

func isMapType(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

func (h *hubCtx) pkg() string { return "mods/persist/hub_meta" }

// writes: f (or what it calls) writes the list of repos
func (h *hubCtx) writes(f *ssa.Function) bool {
	return h.w.Relevant(func(c *ssa.CallCommon) bool { g := c.StaticCallee(); return g != nil && h.writer[g] })[f]
}

func (h *hubCtx) appended(x *Ctx, c *ssa.CallCommon, args []*AV, where string) *Action {
	v, ok := x.In.(ssa.Value)
	if !ok {
		return nil
	}
	one := func(a *AV) *Action { return &Action{Alts: []Alt{{Results: []*AV{a}}}} }
	or := func(a, b string) string {
		if a == "yes" || b == "yes" {
			return "yes"
		}
		if a == "no" && b == "no" {
			return "no"
		}
		return "?"
	}
	cut := func(v ssa.Value) (*ssa.Slice, *AV) {
		s, ok := v.(*ssa.Slice)
		if !ok || !h.isList(s.X.Type()) || s.Low == nil && s.High == nil {
			return nil, nil
		}
		l := x.Val(s.X)
		if l.K != kSym || !strings.HasPrefix(l.Sym, "@L") {
			return nil, nil
		}
		return s, l
	}
	a, al := cut(c.Args[0])
	has := h.holds(x, args[0])
	if len(args) > 1 {
		has = or(has, h.holds(x, args[1]))
		h.newEntry(x, args[1], where)
		if args[1].K == kAddr && h.holds(x, args[1]) == "yes" && x.Get("flip") == "copy" {
			x.Set("flip", "kept")
		}
	}
	if a != nil && a.Max == nil && a.High != nil {
		// the elements behind the cut are overwritten inside the list itself
		hurt := func(n string) {
			switch {
			case has == "no":
				x.Set("has "+n, "no")
			case x.Get("has "+n) != "no":
				x.Set("has "+n, "?")
			}
		}
		hurt(al.Sym)
		for k, v := range x.St.auto {
			if strings.HasPrefix(k, "alias ") && v == al.Sym {
				hurt(k[6:])
			}
		}
	}
	return one(h.newList(x, v, has))
}

// part: does the part of a list around the element at hand hold the repo
func (h *hubCtx) part(x *Ctx, v *ssa.Slice) string {
	l := x.Val(v.X)
	at := func(b ssa.Value) (idx ssa.Value, plus bool) {
		if loopHead(b) != nil {
			if _, ok := x.St.auto["elem "+l.Sym+" "+x.Val(b).Key()+"@"+headKey(loopHead(b))]; ok {
				return b, false
			}
		}
		if add, ok := b.(*ssa.BinOp); ok && add.Op == token.ADD && loopHead(add.X) != nil {
			return add.X, true
		}
		return nil, false
	}
	// before/at/behind the element, the repo is
	pos := func(b ssa.Value) (side string, plus bool) {
		idx, plus := at(b)
		if idx == nil {
			return "", false
		}
		hd := headKey(loopHead(idx))
		switch x.Get("elem " + l.Sym + " " + x.Val(idx).Key() + "@" + hd) {
		case "g":
			return "at", plus
		case "o":
			if x.Get("seen "+l.Sym+"@"+hd) != "" {
				return "before", plus
			}
			return "behind", plus
		}
		return "", false
	}
	if h.holds(x, l) != "yes" {
		return h.holds(x, l)
	}
	res := "yes"
	cond := func(in, known bool) {
		if !known && res == "yes" {
			res = "?"
		}
		if known && !in {
			res = "no"
		}
	}
	if v.Low != nil {
		if k, ok := x.St.ConstOf(x.Val(v.Low)); !ok || k != "i:0" {
			side, plus := pos(v.Low)
			cond(side == "behind" || side == "at" && !plus, side != "")
		}
	}
	if k, ok := x.St.ConstOf(x.Val(v.High)); v.High != nil && ok && k == "i:0" {
		return "no"
	}
	if v.High != nil {
		side, plus := pos(v.High)
		cond(side == "before" || side == "at" && plus, side != "")
	}
	return res
}

// newEntry: an entry made here goes into the list only if it is not in it yet
func (h *hubCtx) newEntry(x *Ctx, arr *AV, where string) {
	if arr.K != kAddr {
		return
	}
	for k, v := range x.St.heap {
		if !strings.HasPrefix(k, arr.Sym+"[") || strings.Contains(k[len(arr.Sym):], ".") || v.K != kSym || !isCell(v.Sym) {
			continue
		}
		rule := "a-repo-is-listed-once"
		name := func(f string) string {
			if a := x.St.heap[v.Sym+f]; a != nil {
				return nameSan.Replace(strName(x.St, a))
			}
			return ""
		}
		ok := false
		addr, path := name(".Addr"), name(".Path")
		for k, f := range x.St.facts {
			if f.Eq != "false" {
				continue
			}
			if addr != "" && strings.HasPrefix(k, "@in(") && strings.Contains(k, h.keyForm+addr) {
				ok = true
			}
			if path != "" && (strings.HasPrefix(k, "@in(") || strings.HasPrefix(k, "@eq(") && strings.Contains(k, theRepo)) && strings.Contains(k, path) {
				ok = true
			}
			if addr != "" && strings.HasPrefix(k, "@eq(") && strings.Contains(k, theRepo) && strings.Contains(k, addr) {
				ok = true
			}
		}
		if !ok && (addr != "" || path != "") {
			x.E.rep.Violation(rule, where, h.w.InstrPos(x.In), "a repo is added to the list which may be in it already", x.St.Trace(40))
		}
		x.E.rep.Ok(rule, where, h.w.InstrPos(x.In), "")
	}
}

func runC11(w *World, r *Report) {
	h := newHub(w)
	if h.t == nil {
		return
	}
	ev := w.RelevantIn(func(c *ssa.CallCommon) bool { f := c.StaticCallee(); return f != nil && h.reader[f] }, func(f *ssa.Function) bool { return w.inPkg(f, "mods/builtin") })
	for _, f := range w.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || !ev[f] || !w.isCmdFunc(f) || !w.inPkg(f, "mods/builtin") {
			continue
		}
		e := NewEngine(w, r, "no-repo-gets-lost", h.spec(r, f))
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor("no-repo-gets-lost", 4)
	r.Floor("only-directories-of-the-hub-are-deleted", 1)
}
