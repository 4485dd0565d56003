package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// c12Taken: outside of the loading of modules (where a failure is contained), names of
// keys and commands are only registered as names or abbrs of env keys if they are free.
func c12Taken(w *World, r *Report) {
	rule := "taken-key-name-ends-no-run"
	isTree := func(t types.Type) bool { return w.isPtrTo(t, "core/model", "EnvAbbrs") }
	// asks: methods that tell if a name is taken
	asks := func(c *ssa.CallCommon) bool {
		g := c.StaticCallee()
		if g == nil || !recvIs(w, g, "EnvAbbrs") || len(c.Args) != 2 {
			return false
		}
		res := g.Signature.Results()
		if res.Len() != 1 || !isBoolT(res.At(0).Type()) {
			return false
		}
		hit := false
		forEachInstr(g, func(in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && lk.Index == ssa.Value(g.Params[1]) {
				if m, ok := lk.X.Type().Underlying().(*types.Map); ok && isString(m.Elem()) {
					hit = true
				}
			}
		})
		return hit
	}
	// free: at this instruction the name is known to be no name or abbr of the node
	var free func(in ssa.Instruction, recv, name ssa.Value, depth int) bool
	free = func(in ssa.Instruction, recv, name ssa.Value, depth int) bool {
		for d := in.Block(); d != nil; d = d.Idom() {
			p := d.Idom()
			if p == nil {
				break
			}
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cond, val := iff.Cond, true
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok {
					break
				}
				cond, val = u.X, !val
			}
			c, ok := cond.(*ssa.Call)
			if !ok || !asks(&c.Call) || !sameVal(c.Call.Args[0], recv) || !sameVal(c.Call.Args[1], name) {
				continue
			}
			s := p.Succs[1]
			if !val {
				s = p.Succs[0]
			}
			if s == d && len(d.Preds) == 1 || s.Dominates(in.Block()) && len(s.Preds) == 1 {
				return true
			}
			// the other way never gets here
			o := p.Succs[0]
			if !val {
				o = p.Succs[1]
			}
			if !reachesWithout(o, in.Block(), p) {
				return true
			}
		}
		rp, ok1 := recv.(*ssa.Parameter)
		np, ok2 := name.(*ssa.Parameter)
		f := in.Parent()
		if !ok1 || !ok2 || depth == 0 || len(w.callInstrsOf(f)) == 0 {
			return false
		}
		for _, c := range w.callInstrsOf(f) {
			a, b := argOf(c.Common(), f, paramIndex(f, rp)), argOf(c.Common(), f, paramIndex(f, np))
			if a == nil || b == nil || !free(c, a, b, depth-1) {
				return false
			}
		}
		return true
	}
	for _, f := range w.Funcs {
		if !w.InModule(f) || !w.inPkg(f, "core/execute") {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			g := c.StaticCallee()
			if g == nil || len(c.Args) < 2 || !isTree(c.Args[0].Type()) || !recvIs(w, g, "EnvAbbrs") {
				return
			}
			var names []ssa.Value
			switch g.Name() {
			case "AddSub", "GetOrAddSub":
				names = append(names, c.Args[1])
				if len(c.Args) > 2 {
					names = append(names, elemsOf(c.Args[2])...)
				}
			case "AddSubAbbrs":
				names = append(names, elemsOf(c.Args[2])...)
			default:
				return
			}
			key := w.FuncKey(f)
			r.Funcs[key] = true
			bad := false
			for _, n := range names {
				if _, isC := n.(*ssa.Const); isC {
					continue
				}
				if !free(ci, c.Args[0], n, 2) {
					bad = true
				}
			}
			if bad {
				r.Violation(rule, key+": "+g.Name(), w.InstrPos(in), "a name that may be taken by another key is registered for an env key: that ends the run", nil)
				return
			}
			r.Ok(rule, key+": "+g.Name()+" "+w.InstrPos(in), w.InstrPos(in), "registered only if it is free")
		})
	}
	r.Floor(rule, 1)
}

// reachesWithout: to can be reached from b without passing the block cut
func reachesWithout(b, to, cut *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{cut: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == to {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// elemsOf: what is in the slice made for variadic arguments; the slice itself otherwise
func elemsOf(v ssa.Value) []ssa.Value {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return []ssa.Value{v}
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return []ssa.Value{v}
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// callInstrsOf: the calls of a function in the module
func (w *World) callInstrsOf(f *ssa.Function) []ssa.CallInstruction {
	m := w.Memo("callInstrsOf", func() interface{} {
		m := map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range w.Funcs {
			forEachInstr(g, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range w.Callees(c.Common()) {
						m[h] = append(m[h], c)
					}
				}
			})
		}
		return m
	}).(map[*ssa.Function][]ssa.CallInstruction)
	return m[f]
}
