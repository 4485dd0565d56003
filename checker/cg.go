package main

import (
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// CG is a type-flow (VTA) call graph of the whole program.
func (w *World) CG() *callgraph.Graph {
	if w.cg == nil {
		all := ssautil.AllFunctions(w.Prog)
		w.cg = vta.CallGraph(all, cha.CallGraph(w.Prog))
		w.cg = vta.CallGraph(all, w.cg)
	}
	return w.cg
}

// Reach: what a function may call, with each function's predecessor.
func (w *World) Reach(into func(f *ssa.Function) bool, roots ...*ssa.Function) map[*ssa.Function]*ssa.Function {
	g := w.CG()
	prev := map[*ssa.Function]*ssa.Function{}
	var q []*ssa.Function
	for _, f := range roots {
		prev[f] = nil
		q = append(q, f)
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if into != nil && !into(f) {
			continue
		}
		n := g.Nodes[f]
		if n == nil {
			continue
		}
		for _, e := range n.Out {
			h := e.Callee.Func
			if _, ok := prev[h]; !ok {
				prev[h] = f
				q = append(q, h)
			}
		}
	}
	return prev
}
