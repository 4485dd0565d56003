package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: a command gets the arguments of its line, and else what it declared.

func init() {
	register(&Prop{
		ID: "C18", Title: "A command gets its args as given on its line, else their declared defaults",
		Explain: "The functions through which an argument passes are followed with one arbitrary argument singled out (declared, set on the line or not, empty or not, mapped or not): what is put into the values of a command, into the env, into the words of a script and into a template on each path is compared with the one of the cases the path is in. Registrations of builtin commands are compared with the argument names their code reads.",
		Run:     runC18,
	})
}

func runC18(w *World, r *Report) {
	c18Values(w, r)
	c18MetaDefault(w, r)
	c18Defaults(w, r)
	c18Words(w, r)
	c18Script(w, r)
	c18Mapped(w, r)
	c18Session(w, r)
	c18Runs(w, r)
	c18Template(w, r)
	c18Declared(w, r)
	c18Numbers(w, r)
	c18Ways(w, r)
}

// member reads a field of an abstract struct (or of what a pointer points to).
func (x *Ctx) member(a *AV, name string, t types.Type, in ssa.Value) *AV {
	if a == nil || (a.K != kSym && a.K != kAddr) {
		return avUnknown
	}
	p := a.Sym + "." + name
	if h, ok := x.St.heap[p]; ok && h.K != kUnknown {
		return h
	}
	if a.K == kSym && !isCell(a.Sym) {
		return avSym(p)
	}
	return x.E.load(x.St, &AV{K: kAddr, Sym: p}, t, in)
}

func (x *Ctx) structMember(v ssa.Value, name string) *AV {
	st, ok := deref(v.Type()).Underlying().(*types.Struct)
	if !ok {
		return avUnknown
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.member(x.Val(v), name, st.Field(i).Type(), v)
		}
	}
	return avUnknown
}

// emptyTest recognises a test whether a text is empty: the text, and whether a true
// outcome means empty.
func emptyTest(v ssa.Value) (s ssa.Value, emptyWhenTrue, ok bool) {
	b, isB := v.(*ssa.BinOp)
	if !isB {
		return
	}
	l, rr, op := b.X, b.Y, b.Op
	if _, isC := l.(*ssa.Const); isC {
		l, rr, op = rr, l, flip(op)
	}
	if a := lenArg(l); a != nil && isStringType(a.Type()) {
		n, isN := constInt(rr)
		if !isN {
			return
		}
		switch {
		case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
			return a, true, true
		case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
			return a, false, true
		}
		return
	}
	if c, isS := constString(rr); isS && c == "" && isStringType(l.Type()) {
		switch op {
		case token.EQL:
			return l, true, true
		case token.NEQ:
			return l, false, true
		}
	}
	return
}

// emptyValue gives a test for an empty text a name that stands for the text.
func emptyValue(x *Ctx, v ssa.Value) *AV {
	s, when, ok := emptyTest(v)
	if !ok {
		return nil
	}
	a := x.Val(s)
	if a.K != kSym || !strings.HasPrefix(a.Sym, "@") {
		return nil
	}
	return &AV{K: kPred, Sym: "@empty(" + nameSan.Replace(a.Sym) + ")", C: "true", Neg: !when}
}

func (x *Ctx) isEmpty(sym string) string { return x.Fact("@empty(" + nameSan.Replace(sym) + ")") }

func (x *Ctx) forgetSyms(syms ...string) {
	for _, s := range syms {
		x.St.define(s)
		x.St.define("@empty(" + nameSan.Replace(s) + ")")
	}
}

// isArgList: the names of the declared arguments in declared order
func (w *World) isArgList(v ssa.Value) bool {
	if w.calledGetter(v, "core/model", "Args", "Names") != nil {
		return true
	}
	if c, ok := v.(*ssa.Call); ok && w.callsMethod(&c.Call, "core/model", "Args", "Names") {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if ok && u.Op == token.MUL {
		if w.isField(u.X, "core/model", "Args", "orderedList") {
			return true
		}
		if al, ok := u.X.(*ssa.Alloc); ok { // a local variable
			ss, known := w.storesToCell(al)
			return known && len(ss) == 1 && w.isArgList(ss[0])
		}
	}
	if f, ok := v.(*ssa.Field); ok {
		return fieldName(f.X.Type(), f.Field) == "orderedList" && w.isNamed(f.X.Type(), "core/model", "Args")
	}
	return false
}

// argElem: v is the element of the list of declared arguments a loop is at
func (w *World) argElem(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	return ok && w.isArgList(ia.X)
}

// argLoop: the loop at h goes over all declared arguments
func (w *World) argLoop(h *ssa.BasicBlock) (is, whole bool) {
	lr := loopRange(h)
	if lr != nil && lr.Over != nil && !lr.IsMap && w.isArgList(lr.Over) {
		return true, lr.Start == nil
	}
	return false, false
}

// mentions: values v is made of (operands, what was stored into its parts), within one function
func madeOf(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 12 {
			return
		}
		seen[v] = true
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op, d+1)
				}
			}
		}
		if al, ok := v.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, rf := range *al.Referrers() {
				switch rf := rf.(type) {
				case *ssa.Store:
					if rf.Addr == v {
						walk(rf.Val, d+1)
					}
				case *ssa.IndexAddr, *ssa.FieldAddr:
					for _, q := range *rf.(ssa.Value).Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == rf.(ssa.Value) {
							walk(s.Val, d+1)
						}
					}
				}
			}
		}
	}
	walk(v, 0)
	return seen
}

// ---- the values of a command

func c18Values(w *World, r *Report) {
	rule := "each-declared-arg-has-its-value"
	f := w.MethodOpt("core/model", "Env", "GetArgv")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	isArgv := func(t types.Type) bool { return w.isNamed(t, "core/model", "ArgVals") }
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if w.argElem(v) {
			return avSym("@name")
		}
		return emptyValue(x, v)
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		o := calleeObj(c)
		if o == nil {
			return nil
		}
		key := func() {
			if len(c.Args) < 2 {
				return
			}
			made := madeOf(c.Args[1])
			has := map[string]bool{}
			for m := range made {
				if p, ok := m.(*ssa.Parameter); ok {
					has[p.Name()] = true
				}
				if w.argElem(m) {
					has["@name"] = true
				}
			}
			if !has["@name"] {
				x.Report(k, "the value of an argument is looked up under a key its name is not part of")
			}
			strs := 0
			for _, p := range f.Params[1:] {
				if t := p.Type().String(); t == "[]string" || t == "string" {
					strs++
					if !has[p.Name()] {
						x.Report(k, "the value of an argument is looked up under a key %s is not part of", p.Name())
					}
				}
			}
		}
		switch {
		case w.callsMethod(c, "core/model", "Env", "GetEx"):
			key()
			if f := x.Fact("@found"); f != "" {
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@got"), &AV{K: kConst, C: f}}}}}
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avSym("@got"), avTrue}, Apply: func(x *Ctx) { x.Set("found", "yes") }, Note: "the argument was set"},
				{Results: []*AV{avSym("@none"), avFalse}, Apply: func(x *Ctx) { x.Set("found", "no") }, Note: "the argument was not set"},
			}}
		case w.callsMethod(c, "core/model", "Env", "Has"):
			key()
			return &Action{Alts: []Alt{
				{Results: []*AV{avTrue}, Apply: func(x *Ctx) { x.Set("found", "yes") }, Note: "the argument was set"},
				{Results: []*AV{avFalse}, Apply: func(x *Ctx) { x.Set("found", "no") }, Note: "the argument was not set"},
			}}
		case w.callsMethod(c, "core/model", "Env", "Get"):
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@got")}}}}
		case w.callsMethod(c, "core/model", "Env", "GetRaw"):
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@got.Raw")}}}}
		case w.callsMethod(c, "core/model", "Args", "DefVal"):
			if len(args) > 2 {
				if args[1].K == kSym && args[1].Sym != "@name" {
					x.Report(k, "the default of another argument is taken")
				}
				if p, ok := c.Args[2].(*ssa.Parameter); !ok || p.Parent() != f {
					if !hasParamOfType(madeOf(c.Args[2]), f, "int") {
						x.Report(k, "the default is not asked for at the nesting level of the command")
					}
				}
			}
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@def")}}}}
		case w.callsMethod(c, "core/model", "Args", "RawDefVal"):
			return &Action{Alts: []Alt{{Results: []*AV{avSym("@rawdef")}}}}
		}
		return nil
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isArgv(mu.Map.Type()) {
			return
		}
		if a := x.Val(mu.Key); a.K == kSym && a.Sym != "@name" {
			x.Report(k, "a value is put in under something else than the name of the argument")
			return
		}
		raw, prov := x.structMember(mu.Value, "Raw"), x.structMember(mu.Value, "Provided")
		given := x.St.Eval(prov)
		// the last one put in counts
		x.Set("put", "1")
		x.Set("wrong", "")
		bad := func(s string) { x.Set("wrong", s) }
		switch x.Get("found") {
		case "yes":
			if given != "true" {
				bad("an argument that was set is not marked as provided")
			}
			if raw.K == kSym && raw.Sym != "@got.Raw" || raw.K == kConst {
				bad("an argument that was set gets something else than the value it was set to")
			}
		case "no":
			if given != "false" {
				bad("an argument that was not set is marked as provided")
			}
			if raw.K == kSym && raw.Sym != "@def" || raw.K == kConst {
				bad("an argument that was not set gets something else than its default at this nesting level")
			}
		default:
			bad("a value is put in without looking whether the argument was set")
		}
	}
	loops := 0
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		is, whole := w.argLoop(to)
		if !is {
			return
		}
		loops++
		r.Ok(rule, k+" turn", w.Pos(f.Pos()), "")
		if !whole {
			x.Report(k, "not all of the declared arguments are gone through")
		}
		if x.Get("put") == "" {
			x.Report(k, "on this path a declared argument gets no value")
		} else if x.Get("wrong") != "" {
			x.Report(k, "%s", x.Get("wrong"))
		}
		for _, s := range []string{"put", "wrong", "found"} {
			x.Set(s, "")
		}
		x.forgetSyms("@name", "@got", "@def", "@none", "@got.Raw")
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, nil, nil)
	r.Engine(e)
	// the loop ends with the list only
	forEachLoop(f, func(h *ssa.BasicBlock) {
		if is, _ := w.argLoop(h); is {
			if at := leavesEarly(h); at != nil {
				r.Violation(rule, k+" loop", w.InstrPos(at), "the walk over the declared arguments can end before the last one", nil)
			}
		}
	})
}

func hasParamOfType(m map[ssa.Value]bool, f *ssa.Function, t string) bool {
	for v := range m {
		if p, ok := v.(*ssa.Parameter); ok && p.Parent() == f && p.Type().String() == t {
			return true
		}
	}
	return false
}

func forEachLoop(f *ssa.Function, fn func(h *ssa.BasicBlock)) {
	for _, b := range f.Blocks {
		if loopBlocks(b) != nil {
			fn(b)
		}
	}
}

// leavesEarly: a way out of the loop other than its own test and panics (nil: none)
func leavesEarly(h *ssa.BasicBlock) ssa.Instruction {
	in := loopBlocks(h)
	for b := range in {
		for _, s := range b.Succs {
			if in[s] || b == h {
				continue
			}
			if panicsOnly(s, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			// the test of a loop may stand in the block after the header
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && lenArg(bo.Y) != nil && bo.Op == token.LSS {
					continue
				}
			}
			return b.Instrs[len(b.Instrs)-1]
		}
	}
	return nil
}

// ---- the default

func c18Defaults(w *World, r *Report) {
	rule := "the-default-is-the-declared-one"
	f := w.MethodOpt("core/model", "Args", "DefVal")
	if f == nil || len(f.Params) != 3 {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	for depth := 0; depth < 4; depth++ {
		for _, auto := range []bool{false, true} {
			depth, auto := depth, auto
			sp := &Spec{Name: rule}
			sp.Inline = func(g *ssa.Function) bool { return w.isNamedRecv(g, "core/model", "Args") }
			sp.Value = func(x *Ctx, v ssa.Value) *AV {
				switch v := v.(type) {
				case *ssa.Lookup:
					u, ok := v.X.(*ssa.UnOp)
					if !ok || x.Val(v.Index).Key() != "$@name" {
						return nil
					}
					res := avUnknown
					switch {
					case w.isField(u.X, "core/model", "Args", "fromAutoMapAll"):
						res = avBool(auto)
					case w.isField(u.X, "core/model", "Args", "defVals"):
						res = avSym("@declared")
					default:
						return nil
					}
					if v.CommaOk {
						return avTuple(res, avBool(!w.isField(u.X, "core/model", "Args", "fromAutoMapAll") || auto))
					}
					return res
				case *ssa.BinOp:
					return cmpConsts(x, v)
				}
				return nil
			}
			sp.Exit = func(x *Ctx, o *Outcome) {
				if o.Kind != exReturn || len(o.Results) == 0 {
					return
				}
				c := fmt.Sprintf("%s depth %d auto %v", k, depth, auto)
				r.Ok(rule, c, w.Pos(f.Pos()), "")
				v := o.Results[0]
				if auto && depth > 1 {
					if s, ok := v.IsStr(); !ok || s != "" {
						x.Report(c, "below the top level, an argument taken over by auto mapping is filled with its default: it would hide the value of the flow around it")
					}
					return
				}
				if v.K == kConst || v.K == kSym && v.Sym != "@declared" {
					x.Report(c, "the default given is not the declared one")
				}
			}
			e := NewEngine(w, r, rule, sp)
			e.Run(f, map[string]*AV{f.Params[1].Name(): avSym("@name"), f.Params[2].Name(): avInt(depth)}, nil)
			r.Engine(e)
		}
	}
}

// cmpConsts folds comparisons of two known integers.
func cmpConsts(x *Ctx, v *ssa.BinOp) *AV {
	num := func(v ssa.Value) (int64, bool) {
		c, ok := x.St.ConstOf(x.Val(v))
		if !ok || !strings.HasPrefix(c, "i:") {
			return 0, false
		}
		n, err := strconv.ParseInt(c[2:], 10, 64)
		return n, err == nil
	}
	a, ok1 := num(v.X)
	b, ok2 := num(v.Y)
	if !ok1 || !ok2 {
		return nil
	}
	switch v.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return avBool(constant.Compare(constant.MakeInt64(a), v.Op, constant.MakeInt64(b)))
	}
	return nil
}

// ---- the words of a line

func c18Words(w *World, r *Report) {
	rule := "words-go-to-their-args"
	b := w.bounds()
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/parser") {
			continue
		}
		var xs *bfn
		forEachInstr(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !w.isNamed(mu.Map.Type(), "core/model", "ParsedEnv") {
				return
			}
			key := mu.Key
			var at *ssa.IndexAddr // where the name was taken from
			pos := false
			for m := range madeOf(key) {
				c, isC := m.(*ssa.Call)
				switch {
				case w.argElem(m):
					at, pos = m.(*ssa.UnOp).X.(*ssa.IndexAddr), true
				case isC && w.callsMethod(&c.Call, "core/model", "Args", "Realname"):
					if u, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.UnOp); ok {
						at, _ = u.X.(*ssa.IndexAddr)
					}
				}
			}
			if at == nil {
				return
			}
			// the value
			var vals []*ssa.IndexAddr
			for m := range valueParts(mu.Value) {
				if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL && isStringType(u.Type()) {
					if ia, ok := u.X.(*ssa.IndexAddr); ok && !w.isArgList(ia.X) && ia != at {
						vals = append(vals, ia)
					}
				}
			}
			if xs == nil {
				xs = b.fn(f)
			}
			r.Funcs[w.FuncKey(f)] = true
			c := w.FuncKey(f)
			if pos {
				c += " positional"
			} else {
				c += " named"
			}
			okOne := false
			for _, v := range vals {
				d := xs.lin(v.Index).add(xs.lin(at.Index), -1)
				if !d.isConst() {
					continue
				}
				if pos && d.c == 0 || !pos && (d.c == 1 || d.c == 2) {
					okOne = true
				}
			}
			if len(vals) == 0 {
				return // not of a shape that can be judged
			}
			if okOne {
				r.Ok(rule, c, w.InstrPos(in), "")
			} else if pos {
				r.Violation(rule, c, w.InstrPos(in), "the i-th word is not what the i-th declared argument is set to", nil)
			} else {
				r.Violation(rule, c, w.InstrPos(in), "a named argument is not set to the word after its name", nil)
			}
		})
	}
	r.Floor(rule, 1)
}

// valueParts: madeOf, but following the words of the value only (not the name handed along)
func valueParts(v ssa.Value) map[ssa.Value]bool { return madeOf(v) }

// ---- scripts

var scriptWords = regexp.MustCompile(`^r?CSA?$`)

func c18Script(w *World, r *Report) {
	words := "scripts-get-all-args-in-order"
	sess := "the-session-env-goes-out-and-comes-back"
	saves := map[*ssa.Function]bool{}
	runs := func(c *ssa.CallCommon) bool {
		switch fullName(c) {
		case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
			return true
		}
		return false
	}
	for _, f := range w.Funcs {
		if w.InModule(f) && w.inPkg(f, "core/model") && f.Parent() == nil && f.Signature.Recv() == nil &&
			f.Signature.Results().Len() == 2 && strings.HasPrefix(f.Name(), "saveEnv") {
			saves[f] = true
		}
	}
	isCmdFile := func(v ssa.Value) bool { return w.fieldLoad(v, "core/model", "Cmd", "cmdLine") }
	var roots []*ssa.Function
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/model") || f.Parent() != nil {
			continue
		}
		run, file := false, false
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && runs(ci.Common()) {
				run = true
			}
			if v, ok := in.(ssa.Value); ok && isCmdFile(v) {
				file = true
			}
		})
		if run && file {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		f := f
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: words, MaxDisj: 40}
		sp.Inline = func(g *ssa.Function) bool { return false }
		report := func(x *Ctx, rule, msg string) {
			r.Violation(rule, k, w.InstrPos(x.In), msg, x.St.Trace(30))
		}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if w.argElem(v) {
				return avSym("@name")
			}
			if isCmdFile(v) {
				return avSym("@file")
			}
			if l, ok := v.(*ssa.Lookup); ok && w.isNamed(l.X.Type(), "core/model", "ArgVals") {
				res := avSym("@argval")
				if x.Val(l.Index).Key() != "$@name" {
					res = avSym("@otherval")
				}
				if l.CommaOk {
					return avTuple(res, avUnknown)
				}
				return res
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && lastField(u.X) == "noSession" {
				return avSym("@nosession")
			}
			if c, ok := v.(*ssa.Const); ok && c.Value == nil {
				return nil
			}
			if phi, ok := v.(*ssa.Phi); ok && phi.Type().String() == "[]string" {
				// a list grown in a loop: what it holds so far
				return nil
			}
			return emptyValue(x, v)
		}
		listOf := func(a *AV) string {
			if a != nil && a.K == kSym && strings.HasPrefix(a.Sym, "@words:") {
				return a.Sym[len("@words:"):]
			}
			if a != nil && a.K == kConst {
				return "" // nil list
			}
			return "r"
		}
		elem := func(x *Ctx, v ssa.Value) string {
			a := x.Val(v)
			switch {
			case a.K == kSym && a.Sym == "@file":
				return "C"
			case a.K == kSym && (a.Sym == "@sessiondir"):
				return "S"
			case a.K == kSym && a.Sym == "@argval.Raw":
				return "A"
			case a.K == kConst && a.C == "s:":
				if x.Fact("@nosession") == "true" {
					return "S" // the place of the session directory stays
				}
				return "?"
			case a.K == kUnknown:
				return "?"
			}
			return "?"
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" && c.Args[0].Type().String() == "[]string" {
				s := listOf(args[0])
				es := elemsOf(c.Args[1])
				sl, isSl := c.Args[1].(*ssa.Slice)
				lit := false
				if isSl {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						_, lit = deref(al.Type()).Underlying().(*types.Array)
					}
				}
				if lit {
					for _, e := range es {
						t := elem(x, e)
						if t == "A" {
							x.Set("turn", "1")
							if strings.HasSuffix(s, "A") {
								continue
							}
						}
						s += t
					}
				} else {
					a := x.Val(c.Args[1])
					t := listOf(a)
					if !(t == "r" && strings.HasSuffix(s, "r")) {
						s += t
					}
				}
				if len(s) > 12 {
					s = s[:12]
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@words:" + s)}}}}
			}
			if callee != nil && saves[callee] {
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@sessiondir"), avSym("@sessionpath")},
					Apply: func(x *Ctx) {
						x.Set("saved", "1")
						x.St.Assume(&AV{K: kPred, Sym: "@empty(" + nameSan.Replace("@sessionpath") + ")", C: "true"}, false)
					}}}}
			}
			switch n := fullName(c); {
			case n == "os/exec.Command" || n == "os/exec.CommandContext":
				s := listOf(x.Val(c.Args[len(c.Args)-1]))
				r.Ok(words, k, w.InstrPos(x.In), "")
				if strings.Contains(s, "?") {
					report(x, words, "the script gets a word that is neither its path, the session directory nor the value of the argument whose turn it is")
				} else if !scriptWords.MatchString(s) {
					report(x, words, "the words of the script are not its path, the session directory and then the values of all its declared arguments")
				}
				return &Action{Opaque: true}
			case runs(c):
				r.Ok(sess, k, w.InstrPos(x.In), "")
				if x.Get("saved") == "" && x.Fact("@nosession") != "true" {
					report(x, sess, "the script runs without the env having been written for it")
				}
				if x.Get("back") != "" {
					report(x, sess, "the env is read back before the script ran")
				}
				x.Set("ran", "1")
				return &Action{Alts: []Alt{
					{Results: []*AV{avNil}},
					{Results: []*AV{avNonNil("@err")}, Note: "the script fails", Apply: func(x *Ctx) { x.Set("failed", "1") }},
				}}
			case callee != nil && callee.Name() == "LoadEnvFromFile":
				if len(args) > 1 && args[1].K == kSym && args[1].Sym != "@sessionpath" && strings.HasPrefix(args[1].Sym, "@") {
					report(x, sess, "another file than the one the script got is read back")
				}
				if x.Get("ran") == "" {
					x.Set("back", "1")
				} else {
					x.Set("read", "1")
				}
				if a := args[0]; a.K == kSym && a.Sym != "@sessionenv" {
					report(x, sess, "what the script set is not put into the session layer of the env")
				}
				return &Action{Opaque: true, Pure: true}
			case w.callsMethod(c, "core/model", "Env", "GetLayer"):
				if s, ok := constString(c.Args[1]); ok && s == w.layerName("EnvLayerSession") {
					return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@sessionenv")}}}}
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@otherenv")}}}}
			}
			return &Action{Opaque: true, Pure: true}
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			is, whole := w.argLoop(to)
			if !is || from.Parent() != f {
				return
			}
			if !whole || x.Get("turn") == "" {
				report(x, words, "on this path a declared argument is not handed to the script")
			}
			x.Set("turn", "")
			x.forgetSyms("@name", "@argval", "@argval.Raw")
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || x.Get("ran") == "" {
				return
			}
			if x.Get("saved") != "" && x.Get("read") == "" {
				r.Violation(sess, k, w.Pos(f.Pos()), "the script ran, but what it wrote to its env is not read back", x.St.Trace(30))
			}
		}
		e := NewEngine(w, r, words, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
		forEachLoop(f, func(h *ssa.BasicBlock) {
			if is, _ := w.argLoop(h); is {
				if at := leavesEarly(h); at != nil {
					r.Violation(words, k+" loop", w.InstrPos(at), "the walk over the declared arguments can end before the last one", nil)
				}
			}
		})
		hasLoop := false
		forEachLoop(f, func(h *ssa.BasicBlock) {
			if is, _ := w.argLoop(h); is {
				hasLoop = true
			}
		})
		if !hasLoop {
			r.Ok(words, k+" (loop not judged)", w.Pos(f.Pos()), "")
		}
	}
}

func lastField(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldName(fa.X.Type(), fa.Field)
	}
	return ""
}

func (w *World) layerName(n string) string {
	p := w.pkgPath("core/model")
	for _, pk := range w.Prog.AllPackages() {
		if pk.Pkg.Path() == p {
			if c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.String {
				return constant.StringVal(c.Val())
			}
		}
	}
	return ""
}

// fieldLoad: v reads the field of a struct of that type
func (w *World) fieldLoad(v ssa.Value, pkg, typ, name string) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return w.isField(u.X, pkg, typ, name)
	}
	if f, ok := v.(*ssa.Field); ok {
		return fieldName(f.X.Type(), f.Field) == name && w.isNamed(f.X.Type(), pkg, typ)
	}
	return false
}

// ---- args mapped to env keys

func c18Mapped(w *World, r *Report) {
	rule := "a-mapped-arg-sets-its-key"
	isArgv := func(t types.Type) bool { return w.isNamed(t, "core/model", "ArgVals") }
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/model") || f.Parent() != nil {
			continue
		}
		var argv, env *ssa.Parameter
		for _, p := range f.Params {
			if isArgv(p.Type()) {
				argv = p
			}
			if w.isPtrTo(p.Type(), "core/model", "Env") {
				env = p
			}
		}
		maps, sets := false, false
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if w.callsMethod(ci.Common(), "core/model", "Arg2Env", "GetEnvKey") {
					maps = true
				}
				if w.callsMethod(ci.Common(), "core/model", "Env", "Set") || w.callsMethod(ci.Common(), "core/model", "Env", "SetEx") {
					sets = true
				}
			}
		})
		if argv == nil || env == nil || !maps || !sets {
			continue
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule, MaxDisj: 60}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if ex, ok := v.(*ssa.Extract); ok {
				if n, ok := ex.Tuple.(*ssa.Next); ok {
					if rg, ok := n.Iter.(*ssa.Range); ok && isArgv(rg.X.Type()) {
						switch ex.Index {
						case 1:
							return avSym("@name")
						case 2:
							return avSym("@val")
						}
					}
				}
			}
			if l, ok := v.(*ssa.Lookup); ok && isArgv(l.X.Type()) && x.Val(l.Index).Key() == "$@name" {
				if l.CommaOk {
					return avTuple(avSym("@val"), avTrue)
				}
				return avSym("@val")
			}
			return emptyValue(x, v)
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			o := calleeObj(c)
			if o == nil {
				return nil
			}
			switch {
			case w.callsMethod(c, "core/model", "Arg2Env", "GetEnvKey"):
				if args[len(args)-1].Key() != "$@name" {
					return nil
				}
				switch x.Get("mapped") {
				case "yes":
					return &Action{Alts: []Alt{{Results: []*AV{avSym("@key"), avTrue}}}}
				case "no":
					return &Action{Alts: []Alt{{Results: []*AV{avSym("@nokey"), avFalse}}}}
				}
				return &Action{Alts: []Alt{
					{Results: []*AV{avSym("@key"), avTrue}, Apply: func(x *Ctx) { x.Set("mapped", "yes") }, Note: "the arg is mapped to a key"},
					{Results: []*AV{avSym("@nokey"), avFalse}, Apply: func(x *Ctx) { x.Set("mapped", "no") }, Note: "the arg is not mapped"},
				}}
			case w.callsMethod(c, "core/model", "Env", "GetEx"), w.callsMethod(c, "core/model", "Env", "Has"):
				if args[len(args)-1].Key() != "$@key" {
					return nil
				}
				yes := Alt{Results: []*AV{avSym("@old"), avTrue}, Apply: func(x *Ctx) { x.Set("inenv", "yes") }, Note: "the key is set"}
				no := Alt{Results: []*AV{avSym("@old"), avFalse}, Apply: func(x *Ctx) { x.Set("inenv", "no") }, Note: "the key is not set"}
				if o.Name() == "Has" {
					yes.Results, no.Results = []*AV{avTrue}, []*AV{avFalse}
				}
				switch x.Get("inenv") {
				case "yes":
					return &Action{Alts: []Alt{yes}}
				case "no":
					return &Action{Alts: []Alt{no}}
				}
				return &Action{Alts: []Alt{yes, no}}
			case w.callsMethod(c, "core/model", "Env", "Set"), w.callsMethod(c, "core/model", "Env", "SetEx"):
				if len(args) < 3 {
					return nil
				}
				prov, empty := x.Fact("@val.Provided"), x.isEmpty("@val.Raw")
				if args[1].K == kSym && args[1].Sym != "@key" || args[2].K == kSym && args[2].Sym != "@val.Raw" {
					x.Report(k, "the key an arg is mapped to is not what is set to the arg's value")
				}
				if p, ok := c.Args[0].(*ssa.Parameter); !ok || p != env {
					if !madeOf(c.Args[0])[env] {
						x.Report(k, "the key is not set in the env given")
					}
				}
				if x.Get("mapped") == "no" {
					x.Report(k, "an arg that is not mapped sets a key")
				}
				if prov != "true" {
					if x.Get("inenv") != "no" {
						x.Report(k, "the default of an arg replaces the value the key has already")
					}
					if empty != "false" {
						x.Report(k, "an empty default sets the key")
					}
				}
				x.Set("set", "1")
				return &Action{Opaque: true, Pure: true}
			}
			return nil
		}
		turnOver := func(x *Ctx) {
			r.Ok(rule, k+" turn", w.Pos(f.Pos()), "")
			if x.Get("set") != "" {
				return
			}
			prov, empty := x.Fact("@val.Provided"), x.isEmpty("@val.Raw")
			switch {
			case x.Get("mapped") == "no":
			case prov == "false" && (empty == "true" || x.Get("inenv") == "yes"):
			case prov == "false":
				x.Report(k, "on this path the default of a mapped arg does not get into the env though the key is not set")
			default:
				x.Report(k, "on this path a provided arg does not set the key it is mapped to")
			}
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			lr := loopRange(to)
			if lr == nil || !(lr.IsMap && isArgv(lr.Over.Type())) {
				return
			}
			turnOver(x)
			for _, s := range []string{"set", "mapped", "inenv"} {
				x.Set(s, "")
			}
			x.forgetSyms("@name", "@val", "@key", "@nokey", "@old", "@val.Raw", "@val.Provided")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
		forEachLoop(f, func(h *ssa.BasicBlock) {
			lr := loopRange(h)
			if lr != nil && lr.IsMap && isArgv(lr.Over.Type()) {
				if at := leavesEarly(h); at != nil {
					r.Violation(rule, k+" loop", w.InstrPos(at), "the walk over the args can end before the last one", nil)
				}
			}
		})
	}
}

// ---- they are applied to the session

func c18Session(w *World, r *Report) {
	rule := "mappings-apply-to-the-session"
	f := w.MethodOpt("core/model", "ParsedCmd", "ApplyMappingGenEnvAndArgv")
	if f == nil {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	sp := &Spec{Name: rule, MaxDisj: 30}
	sp.Inline = func(g *ssa.Function) bool { return false }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		switch {
		case w.callsMethod(c, "core/model", "ParsedCmd", "GenCmdEnv"):
			if len(args) > 1 && args[1].K == kSym && !strings.HasPrefix(args[1].Sym, "@origin") {
				x.Report(k, "the env of the command is not put on top of the one given")
			}
			return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@cmdenv")}}}}
		case w.callsMethod(c, "core/model", "Env", "GetArgv"):
			x.Set("argv", "1")
			if args[0].K == kSym && args[0].Sym != "@cmdenv" {
				x.Report(k, "the args are not looked up in the env of the command itself: what its line sets is not seen")
			}
			return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@argv")}}}}
		case w.callsMethod(c, "core/model", "ParsedCmd", "LastCmd"):
			return &Action{Alts: []Alt{
				{Results: []*AV{avNil}, Apply: func(x *Ctx) { x.Set("nocmd", "1") }},
				{Results: []*AV{avNonNil("@cmd")}},
			}}
		case w.callsMethod(c, "core/model", "Env", "GetLayer"):
			if s, ok := constString(c.Args[1]); ok && s == w.layerName("EnvLayerSession") && args[0].K == kSym && (args[0].Sym == "@cmdenv" || args[0].Sym == "@origin") {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@session")}}}}
			}
			return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@layer")}}}}
		}
		if callee != nil && (callee.Name() == "ApplyVal2Env" || callee.Name() == "ApplyArg2Env") && w.inPkg(callee, "core/model") {
			if args[0].K == kSym && args[0].Sym != "@session" {
				x.Report(k+" "+callee.Name(), "the keys are not set in the session layer")
			}
			if len(args) > 2 && args[2].K == kSym && args[2].Sym != "@argv" {
				x.Report(k+" "+callee.Name(), "other values than the args of the command are used")
			}
			x.Set(callee.Name(), "1")
			return &Action{Opaque: true, Pure: true}
		}
		return nil
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		if x.Get("nocmd") != "" {
			return
		}
		for _, n := range []string{"ApplyVal2Env", "ApplyArg2Env"} {
			if x.Get(n) == "" {
				x.Report(k, "on this path what the command maps to env keys is not set ("+n+")")
			}
		}
		if len(o.Results) == 2 {
			if a := o.Results[1]; a.K == kSym && a.Sym != "@argv" || a.K == kConst {
				x.Report(k, "the values handed back are not the args of the command")
			}
			if a := o.Results[0]; a.K == kSym && a.Sym != "@cmdenv" || a.K == kConst {
				x.Report(k, "the env handed back is not that of the command")
			}
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, map[string]*AV{f.Params[1].Name(): avNonNil("@origin")}, nil)
	r.Engine(e)
}

// ---- a command runs with what was applied

func c18Runs(w *World, r *Report) {
	rule := "a-command-runs-with-its-own-args"
	isRun := func(c *ssa.CallCommon) bool {
		return w.callsMethod(c, "core/model", "CmdTree", "Execute") || w.callsMethod(c, "core/model", "Cmd", "Execute")
	}
	isArgv := func(t types.Type) bool { return w.isNamed(t, "core/model", "ArgVals") }
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.inPkg(f, "core/execute") {
			continue
		}
		applies, runs := false, false
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if w.callsMethod(ci.Common(), "core/model", "ParsedCmd", "ApplyMappingGenEnvAndArgv") {
					applies = true
				}
				if isRun(ci.Common()) {
					runs = true
				}
			}
		})
		if !applies || !runs {
			continue
		}
		f := f
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule, MaxDisj: 30}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch {
			case w.callsMethod(c, "core/model", "Env", "Clone"):
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@copy")}}}}
			case w.callsMethod(c, "core/model", "ParsedCmd", "ApplyMappingGenEnvAndArgv"):
				what := "real"
				if args[1].K == kSym && (args[1].Sym == "@copy" || strings.HasPrefix(args[1].Sym, "@env:copy")) {
					what = "copy"
				}
				cmd := "own"
				made := madeOf(c.Args[0])
				own := false
				for m := range made {
					if p, ok := m.(*ssa.Parameter); ok && w.isNamed(p.Type(), "core/model", "ParsedCmd") {
						own = true
					}
				}
				if !own {
					cmd = "other"
				}
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@env:" + what + ":" + cmd), avNonNil("@argv:" + what + ":" + cmd)}}}}
			case isRun(c):
				r.Ok(rule, k, w.InstrPos(x.In), "")
				for i, a := range args {
					if i >= len(c.Args) {
						break
					}
					switch {
					case isArgv(c.Args[i].Type()):
						if a.K == kConst || a.K == kSym && strings.HasPrefix(a.Sym, "@argv:copy") {
							x.Report(k, "the command runs with args that were only applied to a copy of the env: the keys they are mapped to are not set")
						}
						if a.K == kSym && strings.HasSuffix(a.Sym, ":other") {
							x.Report(k, "the command runs with the args of another one")
						}
					case w.isPtrTo(c.Args[i].Type(), "core/model", "Env"):
						if a.K == kSym && (strings.HasPrefix(a.Sym, "@env:copy") || a.Sym == "@copy") {
							x.Report(k, "the command runs in a copy of the env: what it sets is lost")
						}
					}
				}
			}
			return nil
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
}

// ---- templates

func c18Template(w *World, r *Report) {
	rule := "templates-get-their-value-or-fail"
	isArgv := func(t types.Type) bool { return w.isNamed(t, "core/model", "ArgVals") }
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/model") || f.Parent() != nil {
			continue
		}
		var env, argv, allow *ssa.Parameter
		for _, p := range f.Params {
			switch {
			case isArgv(p.Type()):
				argv = p
			case w.isPtrTo(p.Type(), "core/model", "Env"):
				env = p
			case isBoolT(p.Type()):
				allow = p
			}
		}
		if env == nil || argv == nil || allow == nil || f.Signature.Results().Len() == 0 {
			continue
		}
		asks, looks := false, false
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && w.callsMethod(ci.Common(), "core/model", "Env", "GetEx") && madeOf(ci.Common().Args[0])[env] {
				asks = true
			}
			if l, ok := in.(*ssa.Lookup); ok && isArgv(l.X.Type()) {
				looks = true
			}
		})
		if !asks || !looks {
			continue
		}
		f := f
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule, MaxDisj: 60}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV { return emptyValue(x, v) }
		sp.Split = func(x *Ctx, v ssa.Value) []Alt {
			l, ok := v.(*ssa.Lookup)
			if !ok || !isArgv(l.X.Type()) {
				return nil
			}
			has := Alt{Results: []*AV{avTuple(avSym("@arg"), avTrue)}, Apply: func(x *Ctx) { x.Set("arg", "yes") }, Note: "there is an arg of that name"}
			not := Alt{Results: []*AV{avTuple(avSym("@noarg"), avFalse)}, Apply: func(x *Ctx) {
				x.Set("arg", "no")
				x.St.Assume(&AV{K: kPred, Sym: "@empty(" + nameSan.Replace("@noarg.Raw") + ")", C: "true"}, true)
			}, Note: "there is no arg of that name"}
			if !l.CommaOk {
				has.Results, not.Results = []*AV{avSym("@arg")}, []*AV{avSym("@noarg")}
			} else {
				has.Results, not.Results = []*AV{avSym("@arg"), avTrue}, []*AV{avSym("@noarg"), avFalse}
			}
			return []Alt{has, not}
		}
		expect := func(x *Ctx) string {
			switch {
			case x.Get("env") == "yes":
				return "@env.Raw"
			case x.Get("arg") == "yes" && x.isEmpty("@arg.Raw") == "false":
				return "@arg.Raw"
			case x.Get("sys") == "yes":
				return "@sys"
			}
			return ""
		}
		use := func(x *Ctx, a *AV) {
			if a.K != kSym {
				return
			}
			switch a.Sym {
			case "@env.Raw", "@arg.Raw", "@sys", "@noarg.Raw", "@noenv.Raw", "@nosys":
			default:
				return
			}
			if x.Get("env") == "" {
				return
			}
			if want := expect(x); want == "" {
				x.Report(k, "a template that has no value is replaced by a text")
			} else if a.Sym == want {
				x.Set("used", "1")
			} else if !strings.HasPrefix(a.Sym, "@no") || want != "" {
				x.Report(k, "a template is replaced by something else than the env value or, if there is none, the arg value")
			}
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			switch {
			case w.callsMethod(c, "core/model", "Env", "GetEx"):
				if x.Get("env") != "" {
					return nil
				}
				return &Action{Alts: []Alt{
					{Results: []*AV{avSym("@env"), avTrue}, Apply: func(x *Ctx) { x.Set("env", "yes") }, Note: "the key is in the env"},
					{Results: []*AV{avSym("@noenv"), avFalse}, Apply: func(x *Ctx) { x.Set("env", "no") }, Note: "the key is not in the env"},
				}}
			}
			if callee != nil && w.InModule(callee) && callee.Signature.Results().Len() == 2 && isBoolT(callee.Signature.Results().At(1).Type()) && isStringType(callee.Signature.Results().At(0).Type()) && len(callee.Params) == 1 {
				return &Action{Alts: []Alt{
					{Results: []*AV{avSym("@sys"), avTrue}, Apply: func(x *Ctx) { x.Set("sys", "yes") }, Note: "it is a system value"},
					{Results: []*AV{avSym("@nosys"), avFalse}, Apply: func(x *Ctx) { x.Set("sys", "no") }},
				}}
			}
			if callee != nil && w.InModule(callee) && len(callee.Blocks) > 0 && panicsOnly(callee.Blocks[0], map[*ssa.BasicBlock]bool{}) {
				return &Action{Alts: []Alt{{Panics: true, Val: avNonNil("@missing")}}}
			}
			if strings.HasPrefix(fullName(c), "strings.") {
				for _, a := range args {
					use(x, a)
				}
			}
			return nil
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.ADD && isStringType(b.Type()) {
				use(x, x.Val(b.X))
				use(x, x.Val(b.Y))
			}
		}
		done := func(x *Ctx) {
			if x.Get("env") == "" {
				return
			}
			r.Ok(rule, k+" template", w.Pos(f.Pos()), "")
			if expect(x) == "" {
				if x.Fact("@allow") != "true" {
					x.Report(k, "a template without a value does not end the run with an error")
				}
				return
			}
			if x.Get("used") == "" {
				x.Report(k, "a template that has a value is not replaced by it")
			}
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			if from.Parent() != f {
				return
			}
			asksIn := false
			for b := range loopBlocks(to) {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && w.callsMethod(ci.Common(), "core/model", "Env", "GetEx") {
						asksIn = true
					}
				}
			}
			if !asksIn {
				return
			}
			done(x)
			for _, s := range []string{"env", "arg", "sys", "used"} {
				x.Set(s, "")
			}
			x.forgetSyms("@env", "@arg", "@sys", "@noenv", "@noarg", "@arg.Raw", "@env.Raw", "@noarg.Raw")
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			if x.Get("env") != "" && expect(x) != "" && x.Get("used") == "" && f.Signature.Results().At(0).Type().String() == "[]string" {
				// a list with nothing in it
				done(x)
				return
			}
			done(x)
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{allow.Name(): avSym("@allow")}, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}

// ---- builtin commands declare what they read

// readNames: the constant argument names read through v, or why unknown
func (w *World) strsOf(v ssa.Value, depth int) (out []string, known bool) {
	if s, ok := constString(v); ok {
		return []string{s}, true
	}
	if depth == 0 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			s, ok := w.strsOf(e, depth-1)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.UnOp: // an element of a list written out
		ia, ok := v.X.(*ssa.IndexAddr)
		if !ok || v.Op != token.MUL {
			return nil, false
		}
		list := ia.X
		if al, ok := list.(*ssa.Alloc); ok {
			return litStrs(al)
		}
		if sl, ok := list.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				return litStrs(al)
			}
		}
	}
	return nil, false
}

// litStrs: the constant texts an array was filled with
func litStrs(al *ssa.Alloc) (out []string, known bool) {
	if _, ok := deref(al.Type()).Underlying().(*types.Array); !ok {
		return nil, false
	}
	for _, rf := range *al.Referrers() {
		ia, ok := rf.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				s, isC := constString(st.Val)
				if !isC {
					return nil, false
				}
				out = append(out, s)
			}
		}
	}
	return out, len(out) > 0
}

type argRead struct {
	Getter string
	Name   string
	At     ssa.Instruction
}

// argReads: per function, the constant names it (or what it hands the values to) reads from an ArgVals parameter;
// names which come in as parameters are resolved at the calls.
func (w *World) argReads() map[*ssa.Function][]argRead {
	return w.Memo("argReads", func() interface{} {
		type open struct {
			getter string
			par    int // the parameter that carries the name
			at     ssa.Instruction
		}
		isArgv := func(t types.Type) bool { return w.isNamed(t, "core/model", "ArgVals") }
		known := map[*ssa.Function]map[string]argRead{}
		opens := map[*ssa.Function]map[string]open{}
		add := func(f *ssa.Function, rd argRead) bool {
			if known[f] == nil {
				known[f] = map[string]argRead{}
			}
			key := rd.Getter + "|" + rd.Name
			if _, ok := known[f][key]; ok {
				return false
			}
			known[f][key] = rd
			return true
		}
		param := func(f *ssa.Function, v ssa.Value) int {
			for i, p := range f.Params {
				if v == ssa.Value(p) {
					return i
				}
			}
			return -1
		}
		note := func(f *ssa.Function, getter string, v ssa.Value, at ssa.Instruction) bool {
			ch := false
			if ss, ok := w.strsOf(v, 4); ok {
				for _, s := range ss {
					if add(f, argRead{getter, s, at}) {
						ch = true
					}
				}
				return ch
			}
			if i := param(f, v); i >= 0 {
				if opens[f] == nil {
					opens[f] = map[string]open{}
				}
				key := getter + "|" + strconv.Itoa(i)
				if _, ok := opens[f][key]; !ok {
					opens[f][key] = open{getter, i, at}
					ch = true
				}
			}
			return ch
		}
		own := map[*ssa.Function]map[string]bool{}
		for _, f := range w.Funcs {
			if !w.InModule(f) {
				continue
			}
			f := f
			if w.isNamedRecv(f, "core/model", "ArgVals") {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				if mu, ok := in.(*ssa.MapUpdate); ok && isArgv(mu.Map.Type()) {
					if s, ok := constString(mu.Key); ok {
						if own[f] == nil {
							own[f] = map[string]bool{}
						}
						own[f][s] = true
					}
				}
				if l, ok := in.(*ssa.Lookup); ok && isArgv(l.X.Type()) {
					note(f, "[]", l.Index, in)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				o := calleeObj(ci.Common())
				if o == nil || !strings.HasPrefix(o.Name(), "Get") || !w.callsMethod(ci.Common(), "core/model", "ArgVals", o.Name()) || len(ci.Common().Args) < 2 {
					return
				}
				note(f, o.Name(), ci.Common().Args[1], in)
			})
		}
		for changed := true; changed; {
			changed = false
			for _, f := range w.Funcs {
				if !w.InModule(f) {
					continue
				}
				f := f
				forEachInstr(f, func(in ssa.Instruction) {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						return
					}
					g := ci.Common().StaticCallee()
					if g == nil || !w.InModule(g) || w.isNamedRecv(g, "core/model", "ArgVals") {
						return
					}
					gives := false
					for _, a := range ci.Common().Args {
						if isArgv(a.Type()) {
							gives = true
						}
					}
					if !gives {
						return
					}
					for _, rd := range known[g] {
						if own[f][rd.Name] {
							continue // set by the function itself
						}
						if add(f, rd) {
							changed = true
						}
					}
					for _, op := range opens[g] {
						if op.par < len(ci.Common().Args) && note(f, op.getter, ci.Common().Args[op.par], in) {
							changed = true
						}
					}
				})
			}
		}
		// what is not known: the values go elsewhere or the name is computed
		for _, f := range w.Funcs {
			if !w.InModule(f) || len(f.Blocks) == 0 {
				continue
			}
			f := f
			forEachInstr(f, func(in ssa.Instruction) {
				if w.looseArgv(in, isArgv, func(v ssa.Value) bool {
					_, ok := w.strsOf(v, 4)
					return ok || param(f, v) >= 0
				}) {
					add(f, argRead{Getter: "?", At: in})
				}
			})
		}
		for changed := true; changed; {
			changed = false
			for _, f := range w.Funcs {
				f := f
				if !w.InModule(f) || known[f]["?|"].Getter != "" {
					continue
				}
				forEachInstr(f, func(in ssa.Instruction) {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						return
					}
					g := ci.Common().StaticCallee()
					if g == nil || !w.InModule(g) {
						return
					}
					for i, a := range ci.Common().Args {
						if isArgv(a.Type()) && known[g]["?|"].Getter != "" {
							if add(f, argRead{Getter: "?", At: in}) {
								changed = true
							}
						}
						for _, op := range opens[g] {
							if op.par == i {
								if _, ok := w.strsOf(a, 4); !ok && param(f, a) < 0 {
									if add(f, argRead{Getter: "?", At: in}) {
										changed = true
									}
								}
							}
						}
					}
				})
			}
		}
		out := map[*ssa.Function][]argRead{}
		for f, m := range known {
			var ks []string
			for kk := range m {
				ks = append(ks, kk)
			}
			sort.Strings(ks)
			for _, kk := range ks {
				out[f] = append(out[f], m[kk])
			}
		}
		return out
	}).(map[*ssa.Function][]argRead)
}

// looseArgv: this instruction reads args by a name that is not known, or gives the values away
func (w *World) looseArgv(in ssa.Instruction, isArgv func(types.Type) bool, named func(ssa.Value) bool) bool {
	switch in := in.(type) {
	case *ssa.Lookup:
		return isArgv(in.X.Type()) && !named(in.Index)
	case *ssa.Range:
		return isArgv(in.X.Type())
	case *ssa.Store:
		if !isArgv(in.Val.Type()) {
			return false
		}
		_, isAl := in.Addr.(*ssa.Alloc)
		return !isAl
	case *ssa.MakeInterface:
		return isArgv(in.X.Type())
	case *ssa.MakeClosure:
		for _, b := range in.Bindings {
			if isArgv(b.Type()) || isArgv(deref(b.Type())) {
				return true
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		if o := calleeObj(c); o != nil && strings.HasPrefix(o.Name(), "Get") && len(c.Args) > 1 && w.callsMethod(c, "core/model", "ArgVals", o.Name()) {
			return !named(c.Args[1])
		}
		for _, a := range c.Args {
			if isArgv(a.Type()) {
				g := c.StaticCallee()
				return g == nil || !w.InModule(g)
			}
		}
	}
	return false
}

func c18Declared(w *World, r *Report) {
	rule := "builtin-commands-declare-what-they-read"
	nums := "defaults-fit-their-type"
	used := "builtin-commands-read-what-they-declare"
	reads := w.argReads()
	for _, s := range w.Registrations().Sites {
		if len(s.Funcs) == 0 || w.Registrations().Loose[s.Fn] {
			continue
		}
		decl := map[string]string{}
		constDef := map[string]bool{}
		all := true
		n := 0
		for _, c := range s.Calls {
			if c.Name != "AddArg" && c.Name != "AddAutoMapAllArg" {
				if strings.Contains(c.Name, "Arg2EnvAutoMap") || strings.HasPrefix(c.Name, "AddArgs") {
					all = false
				}
				continue
			}
			n++
			if len(c.Args) < 2 {
				all = false
				continue
			}
			name, ok := constString(c.Args[0])
			if !ok {
				all = false
				continue
			}
			d, isC := constString(c.Args[1])
			decl[name] = d
			constDef[name] = isC
		}
		if !all {
			continue
		}
		for _, f := range s.Funcs {
			r.Funcs[w.FuncKey(f)] = true
			where := w.FuncKey(f)
			got, loose := map[string]bool{}, false
			for _, rd := range reads[f] {
				if rd.Getter == "?" {
					loose = true
				}
				got[rd.Name] = true
			}
			if !loose && !neverSucceeds(f) {
				for n := range decl {
					if !got[n] && !mappedArg(s, n) {
						r.Violation(used, where+" "+n, w.InstrPos(s.In), fmt.Sprintf("the command registered here takes the arg '%s' but never reads it: what a line sets it to is ignored", n), nil)
					} else {
						r.Ok(used, where+" "+n, w.InstrPos(s.In), "")
					}
				}
			}
			for _, rd := range reads[f] {
				if rd.Getter == "?" {
					continue
				}
				_, ok := decl[rd.Name]
				if !ok {
					if strings.HasSuffix(rd.Getter, "Ex") {
						continue // has its own default for an arg that is not declared
					}
					r.Violation(rule, where+" "+rd.Name, w.InstrPos(s.In), fmt.Sprintf("the command registered here reads the arg '%s' which it does not declare: no line can set it", rd.Name), []string{"read at " + w.InstrPos(rd.At)})
					continue
				}
				r.Ok(rule, where+" "+rd.Name, w.InstrPos(s.In), "")
				if !constDef[rd.Name] || decl[rd.Name] == "" {
					continue
				}
				var err error
				switch rd.Getter {
				case "GetInt", "GetIntEx":
					_, err = strconv.Atoi(decl[rd.Name])
				case "GetUint64", "GetUint64Ex":
					_, err = strconv.ParseUint(decl[rd.Name], 10, 64)
				default:
					continue
				}
				if err != nil {
					r.Violation(nums, where+" "+rd.Name, w.InstrPos(s.In), fmt.Sprintf("the default '%s' of the arg '%s' is not a number, but it is read as one", decl[rd.Name], rd.Name), nil)
				} else {
					r.Ok(nums, where+" "+rd.Name, w.InstrPos(s.In), "")
				}
			}
		}
	}
	r.Floor(rule, 20)
}

// neverSucceeds: the command only shows how a failure looks; its args are for show, too
func neverSucceeds(f *ssa.Function) bool {
	i := lastBoolIdx(f.Signature)
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if i < 0 || i >= len(ret.Results) {
			return false
		}
		c, isC := ret.Results[i].(*ssa.Const)
		if !isC || c.Value == nil || constant.BoolVal(c.Value) {
			return false
		}
	}
	return true
}

// mappedArg: the arg sets an env key
func mappedArg(s *RegSite, name string) bool {
	for _, c := range s.Calls {
		for _, a := range c.Args {
			if n, ok := constString(a); ok && n == name && strings.Contains(c.Name, "Arg2Env") {
				return true
			}
		}
	}
	return false
}

// ---- numbers

func c18Numbers(w *World, r *Report) {
	rule := "what-is-no-number-is-an-error"
	for _, f := range w.Funcs {
		if !w.InModule(f) || f.Parent() != nil || !w.isNamedRecv(f, "core/model", "ArgVals") {
			continue
		}
		parses := false
		isParse := func(c *ssa.CallCommon) bool {
			switch fullName(c) {
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
				return true
			}
			return false
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && isParse(ci.Common()) {
				parses = true
			}
		})
		if !parses {
			continue
		}
		f := f
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if l, ok := v.(*ssa.Lookup); ok && w.isNamed(l.X.Type(), "core/model", "ArgVals") {
				if l.CommaOk {
					return avTuple(avSym("@val"), avSym("@declared"))
				}
				return avSym("@val")
			}
			if c, ok := v.(*ssa.Convert); ok {
				if a := x.Val(c.X); a.K == kSym && a.Sym == "@number" {
					return a
				}
			}
			return emptyValue(x, v)
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if !isParse(c) {
				return nil
			}
			if a := args[0]; a.K == kSym && a.Sym != "@val.Raw" {
				x.Report(k, "something else than the value of the arg is read as a number")
			}
			for i, want := range map[int]int64{1: 10, 2: 64} {
				if i < len(c.Args) && strings.Contains(fullName(c), "Parse") && !strings.Contains(fullName(c), "Float") {
					if n, ok := constInt(c.Args[i]); ok && n != want && !(n == 0 && i == 2) {
						x.Report(k, "the number is read with another base or size than decimal, 64 bit")
					}
				}
			}
			return &Action{Alts: []Alt{
				{Results: []*AV{avSym("@number"), avNil}, Apply: func(x *Ctx) { x.Set("ok", "1") }},
				{Results: []*AV{avSym("@junk"), avNonNil("@err")}, Apply: func(x *Ctx) { x.Set("bad", "1") }, Note: "it is not a number"},
			}}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || len(o.Results) == 0 {
				return
			}
			r.Ok(rule, k, w.Pos(f.Pos()), "")
			if x.Get("bad") != "" {
				x.Report(k, "a value which is not a number is taken for one")
				return
			}
			a := o.Results[0]
			if x.Get("ok") != "" {
				if a.K == kConst || a.K == kSym && strings.HasPrefix(a.Sym, "@") && a.Sym != "@number" {
					x.Report(k, "the number read is not the one given back")
				}
				return
			}
			if x.isEmpty("@val.Raw") != "true" && x.Fact("@declared") != "false" {
				x.Report(k, "a number is given back without the value having been read")
			}
			if x.Fact("@declared") == "false" {
				x.Report(k, "an arg that is not there is taken for a number")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}
