package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: what is recorded of a run is what is read back of it.

func init() {
	register(&Prop{
		ID: "C07", Title: "The record of a run reads back as what the run did",
		Explain: "The mark sequences each record writer can emit are extracted path-sensitively (mark, nesting level, optional parts); every composition of them for one command, and every record cut off between two marks, is then fed token by token to an abstract interpretation of the reader, which has to consume it all and put each part where it belongs. Start and finish of commands, sub-flows, runs and background commands are paired on every path, panics included.",
		Run:     runC07,
	})
}

func runC07(w *World, r *Report) {
	c07Language(w, r)
	c07Pairs(w, r)
	c07Run(w, r)
	c07Format(w, r)
	c07Parts(w, r)
	w.lineFormats(r, "values-survive-line-breaks", w.closureOf(w.Method("core/model", "ExecutingFlow", "OnCmdStart")),
		"a value of the environment that contains a line break is written unescaped into the line-based record: the record cannot be read back")
}

// lineFormats: formats which print a value of the environment, as it is, on one line
func (w *World) lineFormats(r *Report, rule string, in map[*ssa.Function]bool, msg string) {
	var order []*ssa.Function
	for f := range in {
		if w.InModule(f) {
			order = append(order, f)
		}
	}
	sort.Slice(order, func(i, j int) bool { return w.FuncKey(order[i]) < w.FuncKey(order[j]) })
	fromEnv := func(v ssa.Value) bool {
		for d := 0; d < 20 && v != nil; d++ {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.Extract:
				if n, ok := x.Tuple.(*ssa.Next); ok {
					if rg, ok := n.Iter.(*ssa.Range); ok && x.Index == 2 {
						v = rg.X
						continue
					}
				}
				return false
			case *ssa.Lookup:
				v = x.X
			case *ssa.Call:
				return w.callsMethod(x.Common(), "core/model", "Env", "Flatten") || w.callsMethod(x.Common(), "core/model", "Env", "GetRaw")
			default:
				return false
			}
		}
		return false
	}
	for _, f := range order {
		forEachInstr(f, func(ins ssa.Instruction) {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			args := c.Common().Args
			fi := -1
			for i, a := range args {
				if s, ok := constString(a); ok && strings.Contains(s, "%s") && strings.HasSuffix(s, "\n") {
					fi = i
				}
			}
			if fi < 0 || fi+1 >= len(args) {
				return
			}
			bad, any := false, false
			if sl, ok := args[fi+1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, u := range *al.Referrers() {
						ia, ok := u.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						for _, u2 := range *ia.Referrers() {
							if st, ok := u2.(*ssa.Store); ok {
								any = true
								bad = bad || fromEnv(st.Val)
							}
						}
					}
				}
			}
			if !any {
				return
			}
			if bad {
				r.Violation(rule, w.FuncKey(f), w.InstrPos(ins), msg, nil)
			} else {
				r.Ok(rule, w.FuncKey(f), w.InstrPos(ins), "no value of the environment is printed as it is")
			}
		})
	}
}

func (w *World) constStrOf(pkg, name string) (string, bool) {
	sp := w.SSAPkgs[w.pkgPath(pkg)]
	if sp == nil {
		return "", false
	}
	c := sp.Const(name)
	if c == nil || c.Value == nil || c.Value.Value == nil || c.Value.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value.Value), true
}

type markFn struct {
	mark, level, lines int // parameter positions; -1: none
	start, finish      bool
	uncond             bool
	block              bool
}

// concatTree: the operands of a string concatenation
func concatLeaves(v ssa.Value, out *[]ssa.Value, d int) {
	if b, ok := v.(*ssa.BinOp); ok && b.Op.String() == "+" && d < 30 {
		concatLeaves(b.X, out, d+1)
		concatLeaves(b.Y, out, d+1)
		return
	}
	*out = append(*out, v)
}

// markFns: the functions which print or look for the mark given to them
func (w *World) markFns() map[*ssa.Function]*markFn {
	return w.Memo("markFns", func() interface{} {
		left, ok := w.constStrOf("core/model", "StatusFileMarkBracketLeft")
		if !ok {
			undecided("anchor not found: constant StatusFileMarkBracketLeft")
		}
		fin, ok := w.constStrOf("core/model", "StatusFileMarkFinishMark")
		if !ok {
			undecided("anchor not found: constant StatusFileMarkFinishMark")
		}
		out := map[*ssa.Function]*markFn{}
		isStr := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.String
		}
		paramIdx := func(f *ssa.Function, v ssa.Value) int {
			for i, p := range f.Params {
				if v == ssa.Value(p) && isStr(p.Type()) {
					return i
				}
			}
			return -1
		}
		var fns []*ssa.Function
		for _, f := range w.Funcs {
			if w.inPkg(f, "core/model") && len(f.Blocks) > 0 {
				fns = append(fns, f)
			}
		}
		uses := map[*ssa.Function][]ssa.Instruction{}
		add := func(f *ssa.Function, i int, start, finish bool, at ssa.Instruction) bool {
			m := out[f]
			ch := false
			if m == nil {
				m = &markFn{mark: i, level: -1, lines: -1}
				for j, p := range f.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && m.level < 0 {
						m.level = j
					}
					if s, ok := p.Type().Underlying().(*types.Slice); ok && isStr(s.Elem()) {
						m.lines = j
					}
				}
				out[f] = m
				ch = true
			}
			if m.mark != i {
				return ch
			}
			if start && !m.start || finish && !m.finish {
				ch = true
			}
			m.start = m.start || start
			m.finish = m.finish || finish
			for _, u := range uses[f] {
				if u == at {
					return ch
				}
			}
			uses[f] = append(uses[f], at)
			return ch
		}
		for again := true; again; {
			again = false
			for _, f := range fns {
				forEachInstr(f, func(in ssa.Instruction) {
					switch in := in.(type) {
					case *ssa.BinOp:
						if in.Op.String() != "+" {
							return
						}
						var ls []ssa.Value
						concatLeaves(in, &ls, 0)
						pi, hasL, hasF := -1, false, false
						for k, l := range ls {
							if i := paramIdx(f, l); i >= 0 && k > 0 {
								// directly behind an opening bracket
								if c, ok := constString(ls[k-1]); ok {
									if strings.HasSuffix(c, left) {
										pi, hasL = i, true
									} else if strings.HasSuffix(c, fin) {
										pi, hasF = i, true
									}
								}
							}
						}
						if pi >= 0 && add(f, pi, hasL, hasF, in) {
							again = true
						}
					case ssa.CallInstruction:
						g := in.Common().StaticCallee()
						m := out[g]
						if g == nil || m == nil || m.mark >= len(in.Common().Args) {
							return
						}
						if i := paramIdx(f, in.Common().Args[m.mark]); i >= 0 {
							if add(f, i, m.start, m.finish, in) {
								again = true
							}
						}
					}
				})
			}
		}
		for f, m := range out {
			// unconditional: some use lies on every way to a return
			for _, u := range uses[f] {
				all := true
				for _, b := range f.Blocks {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !u.Block().Dominates(b) {
						all = false
					}
				}
				if all {
					m.uncond = true
				}
			}
			m.block = m.lines >= 0
		}
		return out
	}).(map[*ssa.Function]*markFn)
}

type recTok struct {
	mark  string
	level int
	kind  string // "full", "start", "finish"
	block bool
	val   string
}

func (t recTok) String() string {
	k := ""
	if t.kind != "full" {
		k = "/" + t.kind
	}
	return fmt.Sprintf("%s@%d%s", t.mark, t.level, k)
}

func tokKey(ts []recTok) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, " ")
}

// recordWriter runs one writer and returns the sequences of marks it may write.
func (w *World) recordWriter(r *Report, rule string, f *ssa.Function, level int, bools []*AV, levelAfter *int) [][]recTok {
	mf := w.markFns()
	n := w.Named("core/model", "ExecutingFlow")
	lf := ""
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if lf != "" {
				undecided("ExecutingFlow has more than one number: the nesting level is not identified")
			}
			lf = st.Field(i).Name()
		}
	}
	if lf == "" {
		undecided("ExecutingFlow has no nesting level")
	}
	writes := func(g *ssa.Function) bool {
		for h := range w.closureOf(g) {
			hit := false
			forEachInstr(h, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch fullName(c.Common()) {
					case "os.OpenFile", "os.WriteFile", "os.Create", "io/ioutil.WriteFile":
						hit = true
					}
				}
			})
			if hit {
				return true
			}
		}
		return false
	}
	toks := map[string]recTok{}
	var out [][]recTok
	seen := map[string]bool{}
	sp := &Spec{Name: rule, MaxDisj: 64}
	sp.Inline = func(g *ssa.Function) bool {
		if !w.inPkg(g, "core/model") {
			return false
		}
		if rc := g.Signature.Recv(); rc != nil && w.isNamed(deref(rc.Type()), "core/model", "ExecutingFlow") {
			return true
		}
		if m := mf[g]; m != nil {
			return m.level < 0
		}
		for h := range w.closureOf(g) {
			if mf[h] != nil {
				return true
			}
		}
		return g.Parent() != nil
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if k, ok := w.envGetKey(c); ok && k == "sys.unlog-status" {
			return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
		}
		if m := mf[callee]; m != nil && m.level >= 0 {
			mark, ok := args[m.mark].IsStr()
			lv, ok2 := intC(args[m.level])
			if !ok || !ok2 {
				x.Report(w.FuncKey(f)+" mark", "a mark of the record whose name or nesting level is not known is written")
				return &Action{Opaque: true, Pure: true}
			}
			t := recTok{mark: mark, level: lv, kind: "full", block: m.block}
			if !m.finish {
				t.kind = "start"
			} else if !m.start {
				t.kind = "finish"
			}
			for i, p := range callee.Params {
				if i != m.mark && i < len(args) {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						if s, ok := args[i].IsStr(); ok {
							t.val = s
						}
					}
				}
			}
			k := fmt.Sprint(t.String(), "=", t.val, t.block)
			toks[k] = t
			put := func(x *Ctx) {
				x.Set("seq", x.Get("seq")+"|"+k)
				x.Set("pending", "1")
			}
			if m.uncond {
				return &Action{Alts: []Alt{{Apply: put}}}
			}
			return &Action{Alts: []Alt{{Apply: put}, {}}}
		}
		if callee != nil && w.InModule(callee) && writes(callee) && !sp.Inline(callee) {
			x.Set("pending", "")
			return &Action{Opaque: true, Pure: true}
		}
		switch fullName(c) {
		case "os.OpenFile", "os.WriteFile":
			x.Set("pending", "")
		}
		return nil
	}
	if levelAfter != nil {
		first := true
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && w.isNamed(deref(fa.X.Type()), "core/model", "ExecutingFlow") && fieldName(fa.X.Type(), fa.Field) == lf {
					if n, ok := intC(x.Val(st.Val)); ok {
						x.Set("level", fmt.Sprint(n))
					} else {
						x.Set("level", "-1")
					}
				}
			}
			if _, ok := in.(*ssa.Return); ok && in.Parent() == f {
				n := level
				if s := x.Get("level"); s != "" {
					n, _ = strconv.Atoi(s)
				}
				if !first && n != *levelAfter {
					n = -1
				}
				*levelAfter = n
				first = false
			}
		}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn {
			return
		}
		if x.Get("pending") != "" {
			x.Report(w.FuncKey(f)+" unwritten", "what is recorded is put together but not written to the status file on some path")
		}
		seq := x.Get("seq")
		if seen[seq] {
			return
		}
		seen[seq] = true
		var ts []recTok
		for _, k := range strings.Split(seq, "|") {
			if k != "" {
				ts = append(ts, toks[k])
			}
		}
		out = append(out, ts)
	}
	e := NewEngine(w, r, rule, sp)
	s0 := &State{facts: map[string]Fact{}, heap: map[string]*AV{}, auto: map[string]string{}}
	var args []*AV
	bi := 0
	for i, p := range f.Params {
		a := avSym("p:" + p.Name())
		if i == 0 && f.Signature.Recv() != nil {
			a = &AV{K: kAddr, Sym: "p:" + p.Name()}
			s0.heap["p:"+p.Name()+"."+lf] = avInt(level)
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if bi < len(bools) && bools[bi] != nil {
				a = bools[bi]
			}
			bi++
		}
		args = append(args, a)
	}
	e.RunState(f, args, nil, s0)
	r.Engine(e)
	sort.Slice(out, func(i, j int) bool { return tokKey(out[i]) < tokKey(out[j]) })
	return out
}

func c07Language(w *World, r *Report) {
	rule := "what-is-written-reads-back"
	vrule := "the-outcome-is-recorded-as-it-was"
	get := func(n string) *ssa.Function { return w.Method("core/model", "ExecutingFlow", n) }
	succ := w.constStr("core/model", "ExecutedResultSucceeded")
	skip := w.constStr("core/model", "ExecutedResultSkipped")
	ferr := w.constStr("core/model", "ExecutedResultError")

	begin := w.recordWriter(r, rule, w.Fn("core/model", "NewExecutingFlow"), 0, nil, nil)
	start := w.recordWriter(r, rule, get("OnCmdStart"), 0, nil, nil)
	async := w.recordWriter(r, rule, get("OnAsyncTaskSchedule"), 0, nil, nil)
	lvl := -1
	sub := w.recordWriter(r, rule, get("OnSubFlowStart"), 0, nil, &lvl)
	lvl2 := -1
	subEnd := w.recordWriter(r, rule, get("OnSubFlowFinish"), 1, nil, &lvl2)
	finish := w.recordWriter(r, rule, get("OnCmdFinish"), 0, nil, nil)
	end := w.recordWriter(r, rule, get("OnFlowFinish"), 0, nil, nil)
	for n, s := range map[string][][]recTok{"NewExecutingFlow": begin, "OnCmdStart": start, "OnAsyncTaskSchedule": async, "OnSubFlowStart": sub, "OnSubFlowFinish": subEnd, "OnCmdFinish": finish, "OnFlowFinish": end} {
		if len(s) == 0 {
			undecided("%s writes nothing that is recognised", n)
		}
		for _, ts := range s {
			if len(ts) == 0 {
				r.Violation(rule, n+" silent", "-", "the start or the end of a run, a sub-flow or a command may go unrecorded although recording is on", nil)
			}
		}
		r.Ok(rule, n, "-", fmt.Sprintf("%d sequence(s), e.g. %s", len(s), tokKey(s[len(s)-1])))
	}
	if lvl != 1 || lvl2 != 0 {
		r.Violation(rule, "nesting level", "-", fmt.Sprintf("a sub-flow must be recorded one level deeper and the level restored behind it (level after start %d, after finish %d)", lvl, lvl2), nil)
		return
	}
	// outcomes
	for _, t := range []struct {
		fn            string
		succeeded     *AV
		skipped       *AV
		want, forbade string
	}{
		{"OnCmdFinish", avTrue, avFalse, succ, ""}, {"OnCmdFinish", avTrue, avTrue, skip, ""},
		{"OnCmdFinish", avFalse, avFalse, ferr, ""}, {"OnCmdFinish", avFalse, avTrue, "", succ},
		{"OnSubFlowFinish", avTrue, avFalse, succ, ""}, {"OnSubFlowFinish", avFalse, avFalse, ferr, ""}, {"OnSubFlowFinish", avFalse, avTrue, "", succ},
		{"OnFlowFinish", avTrue, nil, succ, ""}, {"OnFlowFinish", avFalse, nil, ferr, ""},
	} {
		lv := 0
		if t.fn == "OnSubFlowFinish" {
			lv = 1
		}
		for _, ts := range w.recordWriter(r, rule, get(t.fn), lv, []*AV{t.succeeded, t.skipped}, nil) {
			for _, k := range ts {
				if !strings.HasSuffix(k.mark, "-result") {
					continue
				}
				what := fmt.Sprintf("%s succeeded=%s skipped=%v", t.fn, t.succeeded.C, t.skipped != nil && t.skipped.C == "true")
				if t.want != "" && k.val != t.want || t.forbade != "" && k.val == t.forbade || k.val == "" {
					r.Violation(vrule, what, w.Pos(get(t.fn).Pos()), fmt.Sprintf("the outcome is recorded as '%s'", k.val), nil)
				} else {
					r.Ok(vrule, what, w.Pos(get(t.fn).Pos()), "recorded as "+k.val)
				}
			}
		}
	}
	r.Floor(vrule, 9)
	if len(r.Finds) > 0 {
		return
	}
	// compositions
	subTok := func(open bool) []recTok {
		k := "full"
		if open {
			k = "start"
		}
		return []recTok{{mark: sub[0][0].mark, level: sub[0][0].level, kind: k, block: true}}
	}
	// the inside of a sub-flow must look like a flow one level down
	inner := func(ts []recTok) []recTok {
		var o []recTok
		for _, t := range ts {
			t.level--
			o = append(o, t)
		}
		return o
	}
	subOK := true
	for _, ts := range sub {
		if ts[0].kind != "start" || tokKey(inner(ts[1:])) != tokKey(begin[0]) {
			r.Violation(rule, "sub-flow start", "-", "the start of a sub-flow is not recorded like the start of a run one level deeper: "+tokKey(ts), nil)
			subOK = false
		}
	}
	for _, ts := range subEnd {
		l := ts[len(ts)-1]
		if l.kind != "finish" || l.mark != sub[0][0].mark || l.level != sub[0][0].level || tokKey(inner(ts[:len(ts)-1])) != tokKey(end[0]) {
			r.Violation(rule, "sub-flow finish", "-", "the end of a sub-flow is not recorded like the end of a run one level deeper, closed by its own mark: "+tokKey(ts), nil)
			subOK = false
		}
	}
	if !subOK {
		return
	}
	cat := func(xs ...[]recTok) []recTok {
		var o []recTok
		for _, x := range xs {
			o = append(o, x...)
		}
		return o
	}
	reader := newRecReader(w, r, rule)
	n := 0
	try := func(ts []recTok, cmds int, full bool) {
		n++
		reader.run(ts, cmds, full)
	}
	plain := cat(start[0], finish[0])
	for _, s := range start {
		for _, f := range finish {
			try(cat(begin[0], s, f, end[0]), 1, true)
			try(cat(begin[0], s, subTok(false), f, end[0]), 1, true)
			try(cat(begin[0], s, subTok(false), f, plain, end[0]), 2, true)
		}
	}
	for _, a := range async {
		try(cat(begin[0], a, plain, end[0]), 2, true)
		try(cat(begin[0], plain, a, end[0]), 2, true)
		try(cat(begin[0], plain, a), 2, false)
	}
	r.Ok(rule, "complete records", "-", fmt.Sprintf("%d compositions read back", n))
	// cut off anywhere
	m := n
	long := func(x [][]recTok) []recTok {
		b := x[0]
		for _, y := range x {
			if len(y) > len(b) {
				b = y
			}
		}
		return b
	}
	for _, s := range start {
		for _, f := range [][]recTok{long(finish), finish[0]} {
			all := cat(begin[0], s, subTok(false), f, plain)
			for i := len(begin[0]); i <= len(all); i++ {
				c := 0
				for _, t := range all[:i] {
					if t.mark == plain[0].mark {
						c++
					}
				}
				try(all[:i], c, false)
			}
		}
		try(cat(begin[0], s, subTok(true)), 1, false)
	}
	r.Ok(rule, "records cut off", "-", fmt.Sprintf("%d unfinished records read back", n-m))
	r.Facts["records_read"] = n
	r.Floor(rule, 9)
}

type recReader struct {
	w    *World
	r    *Report
	rule string
	root *ssa.Function
	flow *ssa.Function
	bad  map[string]bool
}

func newRecReader(w *World, r *Report, rule string) *recReader {
	return &recReader{w: w, r: r, rule: rule, root: w.Fn("core/model", "ParseExecutedFlow"), bad: map[string]bool{}}
}

var recFields = map[string]string{"cmd": "Cmd", "cmd-start-time": "StartTs", "log": "LogFilePath", "env-start": "StartEnv",
	"env-finish": "FinishEnv", "cmd-finish-time": "FinishTs", "cmd-result": "Result", "flow": "Flow", "flow-start-time": "StartTs",
	"flow-finish-time": "FinishTs", "flow-result": "Result"}

// run interprets the reader abstractly on one record.
func (q *recReader) run(ts []recTok, cmds int, full bool) {
	w := q.w
	mf := w.markFns()
	N := len(ts)
	last := ts[N-1]
	what := "complete record"
	if !full {
		what = "record cut off behind " + last.String()
	}
	rep := func(x *Ctx, k, f string, a ...interface{}) {
		x.E.rep.Violation(q.rule, k, w.InstrPos(x.In), fmt.Sprintf(f, a...)+" ["+what+": "+tokKey(ts)+"]", x.St.Trace(30))
	}
	lpos := func(a *AV) (int, bool) {
		if a != nil && a.K == kSym && strings.HasPrefix(a.Sym, "@L") {
			var n int
			if _, err := fmt.Sscanf(a.Sym, "@L%d", &n); err == nil {
				return n, true
			}
		}
		return 0, false
	}
	isLines := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	onStack := func(x *Ctx, f *ssa.Function) bool {
		for _, fr := range x.St.stack {
			if fr.fn == f {
				return true
			}
		}
		return false
	}
	sp := &Spec{Name: q.rule, MaxDisj: 40, Track: func(s string) bool { return strings.HasPrefix(s, "@") }}
	readers := map[*ssa.Function]bool{}
	for f := range w.closureOf(q.root) {
		if !w.inPkg(f, "core/model") || mf[f] != nil {
			continue
		}
		for h := range w.closureOf(f) {
			if mf[h] != nil {
				readers[f] = true
			}
		}
	}
	sp.Inline = func(g *ssa.Function) bool {
		if readers[g] || g.Parent() != nil {
			return true
		}
		if m := mf[g]; m != nil {
			return m.level < 0 || m.lines < 0
		}
		// constructors of what is read
		rs := g.Signature.Results()
		if rs.Len() == 1 && (w.isPtrTo(rs.At(0).Type(), "core/model", "ExecutedCmd") || w.isPtrTo(rs.At(0).Type(), "core/model", "ExecutedFlow")) {
			return true
		}
		return false
	}
	sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len":
				if p, ok := lpos(args[0]); ok {
					n := N - p
					return &Action{Alts: []Alt{{Results: []*AV{avInt(n)}}}}
				}
				if args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@sub") {
					return &Action{Alts: []Alt{{Results: []*AV{avInt(4)}}}}
				}
				if args[0].K == kConst && args[0].C == "nil" {
					return &Action{Alts: []Alt{{Results: []*AV{avInt(0)}}}}
				}
				if args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@bgcmds") {
					return &Action{Alts: []Alt{{Results: []*AV{avInt(1)}}}}
				}
			case "append":
				if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && w.isPtrTo(s.Elem(), "core/model", "ExecutedCmd") {
					if x.Get("inbg") == "" {
						n := 0
						fmt.Sscan(x.Get("cmds"), &n)
						x.Set("cmds", fmt.Sprint(n+1))
					}
				}
			}
			return nil
		}
		if fullName(c) == "(time.Time).IsZero" {
			return &Action{Alts: []Alt{{Results: []*AV{avFalse}}}}
		}
		if strings.HasPrefix(fullName(c), "os.") || strings.HasPrefix(fullName(c), "io") {
			// the file could be read
			var rs []*AV
			res := c.Signature().Results()
			for i := 0; i < res.Len(); i++ {
				if isErrorType(res.At(i).Type()) {
					rs = append(rs, avNil)
				} else {
					rs = append(rs, avNonNil(fmt.Sprintf("@file%d", i)))
				}
			}
			return &Action{Alts: []Alt{{Results: rs}}}
		}
		if fullName(c) == "strings.TrimSpace" && args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@c:") {
			return &Action{Alts: []Alt{{Results: []*AV{args[0]}}}}
		}
		if fullName(c) == "strings.Join" && args[0].K == kSym && strings.HasPrefix(args[0].Sym, "@c:") {
			return &Action{Alts: []Alt{{Results: []*AV{args[0]}}}}
		}
		if callee == nil || !w.InModule(callee) {
			return nil
		}
		m := mf[callee]
		if m != nil && m.level >= 0 && m.lines >= 0 {
			mark, ok := args[m.mark].IsStr()
			lv, ok2 := intC(args[m.level])
			if !ok || !ok2 {
				rep(x, w.FuncKey(x.Fn)+" mark", "the name or nesting level of a mark that is looked for is not known")
				return &Action{Drop: true}
			}
			p, isL := lpos(args[m.lines])
			if !isL {
				if x.Get("begun") != "" {
					rep(x, w.FuncKey(x.Fn)+" lines "+mark, "a mark is looked for in lines that are not the rest of the record")
					return &Action{Drop: true}
				}
				p = 0
			}
			x.Set("begun", "1")
			res := c.Signature().Results()
			found := p < N && ts[p].mark == mark && ts[p].level == lv && ts[p].kind != "finish"
			open := found && ts[p].kind == "start"
			np := p
			if found {
				np = p + 1
			}
			var rs []*AV
			nl := 0
			for i := 0; i < res.Len(); i++ {
				if isLines(res.At(i).Type()) {
					nl++
				}
			}
			li := 0
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				switch {
				case isLines(t):
					li++
					if li == nl { // what remains
						rs = append(rs, avSym(fmt.Sprintf("@L%d", np)))
						break
					}
					if !found {
						rs = append(rs, avNil)
					} else if ts[p].mark == "subflow" {
						s := "@sub"
						if open {
							s = "@subopen"
						}
						rs = append(rs, avSym(s))
					} else {
						rs = append(rs, avSym("@c:"+mark))
					}
				case t.String() == "bool":
					rs = append(rs, avBool(found && !open))
				default:
					if found {
						if ts[p].block && mark != "subflow" && nl < 2 {
							rep(x, w.FuncKey(x.Fn)+" block "+mark, "the '%s' part is recorded as a block of lines, of which any number is possible, but read as exactly one line", mark)
						}
						rs = append(rs, avSym("@c:"+mark))
					} else {
						rs = append(rs, zeroAV(t))
					}
				}
			}
			if nl == 0 {
				rep(x, w.FuncKey(x.Fn)+" rest "+mark, "the rest of the record behind a mark is not handed on")
			}
			return &Action{Alts: []Alt{{Results: rs}}}
		}
		if callee == q.root {
			// a background command's own record
			return &Action{Alts: []Alt{{Results: q.bgResults(c), Apply: func(x *Ctx) { x.Set("bg", "1") }}}}
		}
		// the flow reader on the lines of a sub-flow
		for i, a := range args {
			if a.K == kSym && strings.HasPrefix(a.Sym, "@sub") && i < len(callee.Params) && isLines(callee.Params[i].Type()) && readers[callee] {
				for j, p := range callee.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						if n, ok := intC(args[j]); !ok || n != 1 {
							rep(x, w.FuncKey(x.Fn)+" level", "a sub-flow is not read one level deeper")
						}
					}
				}
				if !onStack(x, callee) {
					rep(x, w.FuncKey(x.Fn)+" sub", "a sub-flow is not read by what reads a flow")
				}
				open := strings.HasPrefix(a.Sym, "@subopen")
				var rs []*AV
				res := c.Signature().Results()
				for k := 0; k < res.Len(); k++ {
					t := res.At(k).Type()
					switch {
					case isLines(t):
						rs = append(rs, avNil)
					case t.String() == "bool":
						rs = append(rs, avBool(!open))
					case w.isPtrTo(t, "core/model", "ExecutedFlow"):
						rs = append(rs, avNonNil("@subflow"))
					default:
						rs = append(rs, avUnknown)
					}
				}
				return &Action{Alts: []Alt{{Results: rs}}}
			}
		}
		// contents turned into something else
		for i, a := range args {
			if a.K == kSym && strings.HasPrefix(a.Sym, "@c:") && !sp.Inline(callee) {
				for j, p := range callee.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && i != j {
						if n, ok := intC(args[j]); !ok || n != 0 {
							rep(x, w.FuncKey(x.Fn)+" level of "+a.Sym[3:], "the '%s' part is read at another nesting level than it was written", a.Sym[3:])
						}
					}
				}
				if callee.Signature.Results().Len() == 1 {
					return &Action{Alts: []Alt{{Results: []*AV{{K: kSym, Sym: a.Sym, NonNil: true}}}}}
				}
			}
		}
		if callee.Signature.Recv() != nil && !sp.Inline(callee) {
			return &Action{Opaque: true, Pure: true}
		}
		return nil
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		if u, ok := v.(*ssa.UnOp); ok && x.Get("bg") != "" && w.isField(u.X, "core/model", "ExecutedFlow", "Cmds") {
			if a := x.Val(u.X); a.K == kAddr && strings.HasPrefix(a.Sym, "@bgflow") {
				return avSym("@bgcmds")
			}
		}
		return nil
	}
	sp.Instr = func(x *Ctx, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		isCmd := w.isNamed(deref(fa.X.Type()), "core/model", "ExecutedCmd")
		isFlow := w.isNamed(deref(fa.X.Type()), "core/model", "ExecutedFlow")
		if !isCmd && !isFlow {
			return
		}
		f := fieldName(fa.X.Type(), fa.Field)
		if f == "Corrupted" {
			rep(x, "corrupted", "a record as it is written is taken for corrupted")
		}
		a := x.Val(st.Val)
		if a.K == kSym && strings.HasPrefix(a.Sym, "@c:") {
			mark := a.Sym[3:]
			want := recFields[mark]
			if want == "" {
				return
			}
			if f != want || isFlow != strings.HasPrefix(mark, "flow") {
				rep(x, w.FuncKey(x.Fn)+" "+f, "the '%s' part of the record is read as %s", mark, f)
			}
			x.Set("stored:"+mark, "1")
		}
		if a.K == kSym && strings.HasPrefix(a.Sym, "@subflow") && f == "SubFlow" {
			x.Set("stored:subflow", "1")
		}
		if a.K == kSym && strings.HasPrefix(a.Sym, "@bgflow") && f == "SubFlow" {
			x.Set("stored:scheduled", "1")
		}
	}
	exits := 0
	sp.Exit = func(x *Ctx, o *Outcome) {
		exits++
		if o.Kind == exPanic {
			rep(x, "panic", "reading a record as it is written fails with a panic")
			return
		}
		n := 0
		fmt.Sscan(x.Get("cmds"), &n)
		if n != cmds {
			rep(x, "commands", "%d command(s) are read back from the record of %d", n, cmds)
		}
		need := map[string]bool{}
		for _, t := range ts {
			if t.kind == "full" && (recFields[t.mark] != "" || t.mark == "subflow" || t.mark == "scheduled") {
				need[t.mark] = true
			}
		}
		for _, m := range sortedKeys(need) {
			if x.Get("stored:"+m) == "" {
				rep(x, "lost "+m, "the '%s' part of the record is not read into the result", m)
			}
		}
	}
	e := NewEngine(w, q.r, q.rule, sp)
	e.Run(q.root, nil, nil)
	q.r.Engine(e)
	if exits == 0 {
		q.r.Violation(q.rule, "no exit "+what, "-", "the reader was not followed to its end ["+tokKey(ts)+"]", nil)
	}
}

func (q *recReader) bgResults(c *ssa.CallCommon) []*AV {
	var rs []*AV
	res := c.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if q.w.isPtrTo(res.At(i).Type(), "core/model", "ExecutedFlow") {
			rs = append(rs, &AV{K: kSym, Sym: "@bgflow", NonNil: true})
		} else {
			rs = append(rs, avUnknown)
		}
	}
	return rs
}

// ---- pairing ----

func (w *World) statusCall(c *ssa.CallCommon) string {
	for _, n := range []string{"OnCmdStart", "OnCmdFinish", "OnSubFlowStart", "OnSubFlowFinish", "OnFlowFinish", "OnAsyncTaskSchedule"} {
		if w.callsMethod(c, "core/model", "ExecutingFlow", n) {
			return n
		}
	}
	return ""
}

// boolArg: the k-th bool argument
func boolArgs(c *ssa.CallCommon, args []*AV) []*AV {
	var out []*AV
	off := 0
	if c.IsInvoke() {
		off = 1
	}
	for i, a := range c.Args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			out = append(out, args[i+off])
		}
	}
	return out
}

func (w *World) statusWriterIsOn(x *Ctx, v ssa.Value) *AV {
	if u, ok := v.(*ssa.UnOp); ok && w.isField(u.X, "core/model", "Cli", "FlowStatus") {
		return avNonNil("@status")
	}
	return nil
}

func c07Pairs(w *World, r *Report) {
	rule := "starts-and-finishes-pair-up"
	root := w.Method("core/model", "Cmd", "Execute")
	isEv := func(c *ssa.CallCommon) bool {
		k, ok := w.outcomeCall(c)
		return w.statusCall(c) != "" || ok && k != "Cmd.Execute"
	}
	sites := map[string]string{}
	for _, allow := range []bool{false, true} {
		sp := &Spec{Name: rule, Event: isEv}
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			if a := w.statusWriterIsOn(x, v); a != nil {
				return a
			}
			if ta, ok := v.(*ssa.TypeAssert); ok && ta.CommaOk && w.isNamed(ta.AssertedType, "core/model", "AbortByUserErr") {
				if x.St.IsNil(x.Val(ta.X)) == "true" {
					return avTuple(avNil, avFalse)
				}
				return avTuple(avSym("@abortval"), avSym("@abort"))
			}
			return nil
		}
		aborted := func(x *Ctx) bool {
			for k, f := range x.St.facts {
				if strings.HasPrefix(k, "@abort") && f.Eq == "true" {
					return true
				}
			}
			return false
		}
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if w.callsMethod(c, "core/model", "Blender", "Invoke") {
				return &Action{Opaque: true}
			}
			if s := w.statusCall(c); s != "" {
				at := w.FuncKey(x.Fn) + ": " + s
				sites[at] = w.InstrPos(x.In)
				switch s {
				case "OnCmdStart":
					if x.Get("cmd") == "open" {
						x.Report(at, "the start of a command is recorded twice")
					}
					if x.Get("ran") != "" {
						x.Report(at+" late", "the start of a command is recorded only after it ran")
					}
					x.Set("cmd", "open")
				case "OnSubFlowStart":
					if x.Get("cmd") != "open" || x.Get("sub") == "open" {
						x.Report(at, "the start of a sub-flow is recorded outside the record of its command, or twice")
					}
					x.Set("sub", "open")
				case "OnSubFlowFinish":
					if x.Get("sub") != "open" {
						x.Report(at, "the end of a sub-flow is recorded that was not started: the record leaves its nesting level")
					}
					x.Set("sub", "closed")
					w.judgeOutcomeArg(x, c, args, at, "subfailed")
				case "OnCmdFinish":
					if x.Get("cmd") != "open" {
						x.Report(at, "the end of a command is recorded that was not started, or twice")
					}
					if x.Get("sub") == "open" {
						x.Report(at+" inside", "the end of a command is recorded inside its sub-flow: the record of the sub-flow is not closed, and what follows is read back as part of it")
					}
					x.Set("cmd", "closed")
					if !allow {
						w.judgeOutcomeArg(x, c, args, at, "failed")
					}
				}
				return &Action{Opaque: true, Pure: true}
			}
			k, ok := w.outcomeCall(c)
			if !ok {
				return nil
			}
			if k == "Cmd.Execute" {
				return &Action{Inline: true}
			}
			at := w.FuncKey(x.Fn) + ": " + k
			if x.Get("cmd") != "open" {
				x.Report(at+" unrecorded", "the body of a command runs outside its record")
			}
			if k == "Executor.Execute" && x.Get("sub") != "open" {
				x.Report(at+" unrecorded", "a sub-flow runs outside its record")
			}
			fail := func(x *Ctx) {
				x.Set("ran", "1")
				x.Set("failed", k)
				if k == "Executor.Execute" {
					x.Set("subfailed", "1")
				}
			}
			if k == "script process" {
				return &Action{Alts: []Alt{
					{Results: []*AV{avNonNil("@runerr")}, Apply: fail, Note: k + " fails"},
					{Results: []*AV{avNil}, Apply: func(x *Ctx) { x.Set("ran", "1") }},
				}}
			}
			return boolAlts(x, c, func(x *Ctx) { x.Set("ran", "1") }, fail, fail, k)
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if _, ok := in.(*ssa.Panic); ok {
				x.Set("failed", "panic")
			}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind == exExit || o.Kind == exPanic && aborted(x) {
				return
			}
			where := w.FuncKey(root)
			if x.Get("cmd") == "open" {
				x.Report(where+" end", "a command can end (%s) without its end being recorded", o.Kind)
			}
			if x.Get("sub") == "open" {
				x.Report(where+" sub-flow end", "a sub-flow can end (%s) without its end being recorded", o.Kind)
			}
			if x.Get("ran") != "" && x.Get("cmd") == "" {
				x.Report(where+" start", "a command can run without being recorded")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, map[string]*AV{"allowError": avBool(allow)}, nil)
		r.Engine(e)
	}
	for k, p := range sites {
		r.Ok(rule, k, p, "")
	}
	r.Floor(rule, 4)
}

// judgeOutcomeArg: what is recorded as the outcome is the outcome.
func (w *World) judgeOutcomeArg(x *Ctx, c *ssa.CallCommon, args []*AV, at, failed string) {
	bs := boolArgs(c, args)
	if len(bs) == 0 {
		return
	}
	v := x.St.Eval(bs[0])
	if x.Get(failed) != "" && v != "false" {
		x.Report(at+" outcome", "a failure may be recorded as a success")
	}
	if x.Get("ran") != "" && x.Get("failed") == "" && v == "false" {
		x.Report(at+" outcome-ok", "a success is recorded as a failure")
	}
}

// the end of a run and of a background command
func c07Run(w *World, r *Report) {
	rule := "the-end-of-a-run-is-recorded"
	root := w.Method("core/execute", "Executor", "Run")
	isStart := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cli", "SetFlowStatusWriter") }
	isRun := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Cmd", "Execute") }
	mk := func(root *ssa.Function, rule string, bg bool) *Spec {
		sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool {
			return isStart(c) || bg && isRun(c) || w.callsMethod(c, "core/model", "ExecutingFlow", "OnFlowFinish")
		}}
		sp.Value = func(x *Ctx, v ssa.Value) *AV { return w.statusWriterIsOn(x, v) }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if isStart(c) {
				x.Set("begun", "1")
				return &Action{Opaque: true, Pure: true}
			}
			if isRun(c) {
				if bg && x.Get("begun") == "" {
					x.Report(w.FuncKey(x.Fn)+" unrecorded", "a background command runs before its record is begun")
				}
				return boolAlts(x, c, func(x *Ctx) { x.Set("ran", "1") }, func(x *Ctx) { x.Set("failed", "1") }, func(x *Ctx) { x.Set("failed", "1") }, "Cmd.Execute")
			}
			if w.callsMethod(c, "core/model", "ExecutingFlow", "OnFlowFinish") {
				bs := boolArgs(c, args)
				v := bs[0].Key()
				if s := x.St.Eval(bs[0]); s != "" {
					v = s
				}
				if x.Get("fin") != "" {
					x.Report(w.FuncKey(root)+" twice", "the end of a run is recorded twice")
				}
				x.Set("fin", v)
				if x.Get("failed") != "" && v != "false" {
					x.Report(w.FuncKey(root)+" result", "a failed run may be recorded as succeeded")
				}
				return &Action{Opaque: true, Pure: true}
			}
			if w.callsExecutorExecute(c) || w.callsMethod(c, "core/model", "Blender", "Invoke") {
				return &Action{Opaque: true}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn {
				return
			}
			if !bg && x.Get("begun") != "" {
				if x.Get("fin") == "" {
					x.Report(w.FuncKey(root)+" end", "a run whose record was begun can end without its end being recorded")
					return
				}
				i := lastBoolIdx(root.Signature)
				v := o.Results[i].Key()
				if s := x.St.Eval(o.Results[i]); s != "" {
					v = s
				}
				if v != x.Get("fin") {
					x.Report(w.FuncKey(root)+" outcome", "the outcome of a run that is recorded is not the one that is reported")
				}
			}
			if bg && x.Get("ran") != "" && x.Get("failed") == "" && x.Get("panicked") == "" && x.Get("fin") == "" {
				x.Report(w.FuncKey(root)+" end", "a background command can end without its end being recorded")
			}
		}
		return sp
	}
	e := NewEngine(w, r, rule, mk(root, rule, false))
	e.Run(root, nil, nil)
	r.Engine(e)
	r.Ok(rule, w.FuncKey(root), w.Pos(root.Pos()), "")
	for _, l := range w.launchers() {
		e := NewEngine(w, r, rule, mk(l.body, rule, true))
		e.Run(l.body, nil, nil)
		r.Engine(e)
		r.Ok(rule, w.FuncKey(l.body), w.Pos(l.body.Pos()), "")
	}
	r.Floor(rule, 2)
}

// times are read the way they are written; records are added to, not replaced
func c07Format(w *World, r *Report) {
	rule := "times-read-as-written"
	arule := "records-are-appended"
	wr := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if rc := f.Signature.Recv(); rc != nil && w.isNamed(deref(rc.Type()), "core/model", "ExecutingFlow") {
			for h := range w.closureOf(f) {
				if w.inPkg(h, "core/model") {
					wr[h] = true
				}
			}
		}
	}
	layouts := map[string]string{}
	var order []*ssa.Function
	for f := range wr {
		order = append(order, f)
	}
	sort.Slice(order, func(i, j int) bool { return w.FuncKey(order[i]) < w.FuncKey(order[j]) })
	for _, f := range order {
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch fullName(c.Common()) {
			case "(time.Time).Format":
				l, ok := constString(c.Common().Args[1])
				if !ok {
					r.Violation(rule, w.FuncKey(f)+" layout", w.InstrPos(in), "a recorded time has no fixed format", nil)
					return
				}
				layouts[l] = w.FuncKey(f)
				r.Ok(rule, w.FuncKey(f)+" "+w.InstrPos(in), w.InstrPos(in), l)
			case "(time.Time).UTC", "(time.Time).In":
				r.Violation(rule, w.FuncKey(f)+" zone", w.InstrPos(in), "times are recorded in another zone than they are read in", nil)
			case "os.OpenFile":
				fl, ok := constInt(c.Common().Args[1])
				const oAppend, oTrunc, oCreate = 0x400, 0x200, 0x40
				if !ok || fl&oAppend == 0 || fl&oTrunc != 0 || fl&oCreate == 0 {
					r.Violation(arule, w.FuncKey(f), w.InstrPos(in), "the record is not opened for appending: what was recorded before is overwritten", nil)
				} else {
					r.Ok(arule, w.FuncKey(f), w.InstrPos(in), "")
				}
			case "os.Create", "os.WriteFile", "io/ioutil.WriteFile":
				r.Violation(arule, w.FuncKey(f), w.InstrPos(in), "the record is replaced instead of added to", nil)
			}
		})
	}
	r.Floor(arule, 1)
	for f := range w.closureOf(w.Fn("core/model", "ParseExecutedFlow")) {
		if !w.inPkg(f, "core/model") {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			fn := fullName(c.Common())
			if fn != "time.Parse" && fn != "time.ParseInLocation" {
				return
			}
			l, ok := constString(c.Common().Args[0])
			key := w.FuncKey(f) + " parse"
			if fn == "time.Parse" {
				r.Violation(rule, key, w.InstrPos(in), "a recorded time is read in another zone than it was written in", nil)
			}
			if fn == "time.ParseInLocation" {
				g, isG := derefVal(c.Common().Args[2]).(*ssa.Global)
				if !isG || g.Name() != "Local" {
					r.Violation(rule, key+" zone", w.InstrPos(in), "a recorded time is read in another zone than it was written in", nil)
				}
			}
			for k, by := range layouts {
				if !ok || k != l {
					r.Violation(rule, key+" layout", w.InstrPos(in), fmt.Sprintf("times are read as '%s' but written as '%s' by %s", l, k, by), nil)
				}
			}
			r.Ok(rule, key, w.InstrPos(in), l)
		})
	}
	r.Floor(rule, 4)
}
