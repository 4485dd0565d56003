package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c08Faithful: what a saved environment holds is what is in the environment, and
// all of it is taken over as written when it is read.
func c08Faithful(w *World, r *Report) {
	rule := "a-saved-env-is-read-back-as-it-was"
	sorted := func(m map[*ssa.Function]bool) (fs []*ssa.Function) {
		for f := range m {
			if w.inPkg(f, "core/model") {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return w.FuncKey(fs[i]) < w.FuncKey(fs[j]) })
		return
	}
	// reading
	for _, f := range sorted(w.closureOf(w.Fn("core/model", "LoadEnvFromFile"))) {
		k := w.FuncKey(f)
		lines := false
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if fullName(c.Common()) == "(*bufio.Scanner).Scan" || fullName(c.Common()) == "(*bufio.Reader).ReadString" {
				lines = true
			}
		})
		if !lines {
			continue
		}
		r.Funcs[k] = true
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !(w.callsMethod(c.Common(), "core/model", "Env", "Set") || w.callsMethod(c.Common(), "core/model", "Env", "SetEx")) {
				return
			}
			for _, a := range c.Call.Args[1:] {
				if s := c07Cut(a, map[ssa.Value]bool{}); s != "" {
					r.Violation(rule, k+" line", w.InstrPos(in), "a key or value of a saved environment is not taken as it was written ("+s+"): a line is to be cut at its first separator", nil)
				}
			}
			r.Ok(rule, k+" line", w.InstrPos(in), "cut at the first separator")
		})
		// the walk over the lines ends at the end of the file or with an error
		forEachLoop(f, func(h *ssa.BasicBlock) {
			in := loopBlocks(h)
			scans := func(b *ssa.BasicBlock) bool {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					return false
				}
				c, ok := iff.Cond.(*ssa.Call)
				return ok && fullName(c.Common()) == "(*bufio.Scanner).Scan"
			}
			has := false
			for b := range in {
				has = has || scans(b)
			}
			if !has {
				return
			}
			r.Ok(rule, k+" lines", w.Pos(f.Pos()), "all lines")
			for _, b := range f.Blocks {
				if !in[b] || scans(b) {
					continue
				}
				for _, s := range b.Succs {
					if in[s] || panicsOnly(s, map[*ssa.BasicBlock]bool{}) || endsInError(b, s) {
						continue
					}
					r.Violation(rule, k+" lines", w.InstrPos(b.Instrs[len(b.Instrs)-1]), "reading a saved environment can end before its last line without an error: the rest of it is lost", nil)
				}
			}
		})
	}
	// writing
	for _, f := range sorted(w.closureOf(w.Fn("core/model", "SaveEnvToFile"))) {
		k := w.FuncKey(f)
		f := f
		writes := false
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(fullName(c.Common()), "fmt.Fprint") {
				return
			}
			for _, a := range c.Call.Args[1:] {
				sl, ok := a.(*ssa.Slice)
				if !ok {
					continue
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok {
					continue
				}
				for _, u := range *al.Referrers() {
					ia, ok := u.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, u2 := range *ia.Referrers() {
						st, ok := u2.(*ssa.Store)
						if !ok {
							continue
						}
						v := st.Val
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						writes = true
						if s := c07Cut(v, map[ssa.Value]bool{}); s != "" {
							r.Violation(rule, k+" written", w.InstrPos(in), "a key or value of an environment is not written as it is ("+s+")", nil)
						}
					}
				}
			}
			r.Ok(rule, k+" written", w.InstrPos(in), "as it is")
		})
		if !writes {
			continue
		}
		c08Skipped(w, r, rule, f)
		forEachLoop(f, func(h *ssa.BasicBlock) {
			in := loopBlocks(h)
			prints := false
			for b := range in {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok && strings.HasPrefix(fullName(c.Common()), "fmt.Fprint") {
						prints = true
					}
				}
			}
			if !prints {
				return
			}
			for _, b := range f.Blocks {
				if !in[b] || b == h {
					continue
				}
				for _, s := range b.Succs {
					if in[s] || panicsOnly(s, map[*ssa.BasicBlock]bool{}) || endsInError(b, s) {
						continue
					}
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS && lenArg(bo.Y) != nil {
							continue
						}
					}
					r.Violation(rule, k+" keys", w.InstrPos(b.Instrs[len(b.Instrs)-1]), "writing an environment can end before its last key without an error: the rest of it is lost", nil)
				}
			}
		})
	}
	r.Floor(rule, 3)
}

// endsInError: from b the way through s does nothing but return, and not a nil error
func endsInError(b, s *ssa.BasicBlock) bool {
	for d := 0; d < 6; d++ {
		switch t := s.Instrs[len(s.Instrs)-1].(type) {
		case *ssa.Return:
			if len(t.Results) == 0 {
				return false
			}
			v := t.Results[len(t.Results)-1]
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
				for i, p := range s.Preds {
					if p == b {
						v = phi.Edges[i]
					}
				}
			}
			if !isErrorType(v.Type()) {
				return false
			}
			if c, ok := v.(*ssa.Const); ok && c.Value == nil {
				return false
			}
			// the answer of the reader itself says nothing about a line
			if c, ok := v.(*ssa.Call); ok && fullName(c.Common()) == "(*bufio.Scanner).Err" {
				return false
			}
			return true
		case *ssa.Jump:
			b, s = s, s.Succs[0]
		default:
			return false
		}
	}
	return false
}

// c08Skipped: a key is left out of what is written only if its value is the default one
func c08Skipped(w *World, r *Report, rule string, f *ssa.Function) {
	k := w.FuncKey(f)
	forEachLoop(f, func(h *ssa.BasicBlock) {
		lr := loopRange(h)
		if lr == nil || !lr.IsMap {
			return
		}
		in := loopBlocks(h)
		var next *ssa.Next
		appends := false
		for b := range in {
			for _, i := range b.Instrs {
				if n, ok := i.(*ssa.Next); ok {
					next = n
				}
				if isAppend(i) != nil {
					appends = true
				}
			}
		}
		if next == nil || !appends {
			return
		}
		if at := leavesEarly(h); at != nil {
			r.Violation(rule, k+" skipped", w.InstrPos(at), "keys of the environment after some are not written", nil)
		}
		isVal := func(v ssa.Value) bool {
			e, ok := v.(*ssa.Extract)
			return ok && e.Tuple == ssa.Value(next) && e.Index == 2
		}
		sp := &Spec{Name: rule, MaxDisj: 40}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV {
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return nil
			}
			a, c := b.X, b.Y
			if isVal(c) {
				a, c = c, a
			}
			if !isVal(a) {
				return nil
			}
			if _, isC := c.(*ssa.Const); isC {
				return nil
			}
			return &AV{K: kPred, Sym: "@same", C: "true", Neg: b.Op == token.NEQ}
		}
		sp.Instr = func(x *Ctx, i ssa.Instruction) {
			if in[i.Block()] && isAppend(i) != nil {
				x.Set("kept", "1")
			}
		}
		sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
			if to != h {
				return
			}
			if x.Get("kept") == "" && x.truth("@same") != "true" {
				x.Report(k+" skipped", "a key whose value is not the default one can be left out of what is saved")
			}
			x.Set("kept", "")
			delete(x.St.facts, "@same")
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
		r.Ok(rule, k+" skipped", w.Pos(f.Pos()), "only keys with the default value are left out")
	})
}

// c09Shape: a name counts as a session's only if it has exactly its two parts
func c09Shape(w *World, r *Report) {
	rule := "only-names-of-sessions-are-taken-for-sessions"
	for _, f := range w.Funcs {
		if !w.inPkg(f, "core/model") || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		split, num, ts := false, false, false
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			switch fullName(c.Common()) {
			case "strings.Split":
				split = true
			case "strconv.Atoi", "strconv.ParseInt":
				num = true
			case "time.ParseInLocation", "time.Parse":
				ts = true
			}
		})
		if !split || !num || !ts || lastBoolIdx(f.Signature) < 0 {
			continue
		}
		k := w.FuncKey(f)
		f := f
		bi := lastBoolIdx(f.Signature)
		sp := &Spec{Name: rule, MaxDisj: 40}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if fullName(c) == "strings.Split" {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@fields")}}}}
			}
			return nil
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || x.St.Eval(o.Results[bi]) == "false" {
				return
			}
			if x.St.facts["@fields%len"].Eq != "i:2" {
				x.Report(k, "a name that does not have exactly the two parts of a session's name can be taken for one")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, nil, nil)
		r.Engine(e)
		r.Ok(rule, k, w.Pos(f.Pos()), "exactly two parts")
	}
}

// c14Frames: the flow in forest-mode is the innermost one that entered it
func c14Frames(w *World, r *Report) {
	rule := "forest-mode-is-that-of-the-innermost-flow"
	isStack := func(v ssa.Value) bool { return fieldRead(v) == "stack" }
	for _, f := range w.Funcs {
		rc := f.Signature.Recv()
		if rc == nil || !w.isNamed(deref(rc.Type()), "core/model", "ForestMode") {
			continue
		}
		k := w.FuncKey(f)
		switch f.Name() {
		case "AtForestTopLvl", "Pop", "Push":
		default:
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				if !isStack(in.X) {
					return
				}
				if _, ok := constInt(in.Index); ok {
					r.Violation(rule, k, w.InstrPos(in), "the frame looked at is not that of the innermost flow in forest-mode", nil)
				} else {
					r.Ok(rule, k, w.InstrPos(in), "")
				}
			case *ssa.Slice:
				if isStack(in.X) && f.Name() == "Pop" {
					if n, ok := constInt(in.Low); in.Low != nil && (!ok || n != 0) {
						r.Violation(rule, k, w.InstrPos(in), "leaving forest-mode takes away the frame of an outer flow", nil)
					} else {
						r.Ok(rule, k, w.InstrPos(in), "")
					}
				}
			}
		})
	}
}
