package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// C17: nothing depends on the order Go walks a map in.

func init() {
	register(&Prop{
		ID: "C17", Title: "The same run gives the same result: no map order gets out",
		Explain: "Every loop over a map in the module is judged by what its turns do to what outlives them (interprocedurally: printing, appending, storing, registering, running functions, leaving early): effects that come out the same in every order are accepted, lists and texts put together in map order are followed (also through results, parameters and out-parameters) until they are sorted.",
		Assume: []string{
			"two elements a sort function of its own (not comparing whole texts or numbers) finds equal are equal in what is shown of them",
		},
		Run: runC17,
	})
}

func runC17(w *World, r *Report) {
	o := w.ordering()
	badIn := map[*ssa.Function]bool{}
	n := 0
	for _, b := range o.Bad {
		badIn[b.F] = true
		key := w.FuncKey(b.F)
		r.Funcs[key] = true
		n++
		if n > 200 {
			continue
		}
		r.Violation("map-order-does-not-get-out", key+": "+b.What, w.InstrPos(b.At), b.What, b.Trace)
	}
	for i, l := range o.Loops {
		key := w.FuncKey(l.F)
		r.Funcs[key] = true
		if badIn[l.F] {
			continue
		}
		r.Ok("map-order-does-not-get-out", fmt.Sprintf("%s loop %d", key, i), w.InstrPos(l.At), "a loop over "+l.Over+": its effects are the same in every order of its turns")
	}
	r.Floor("map-order-does-not-get-out", 25)
	o.comparators(func(f *ssa.Function, at ssa.Instruction, ok bool, what string) {
		key := w.FuncKey(f)
		r.Funcs[key] = true
		if ok {
			r.Ok("lists-are-sorted-by-whole-elements", key+" "+w.InstrPos(at), w.InstrPos(at), what)
			return
		}
		r.Violation("lists-are-sorted-by-whole-elements", key+": sorted by a part of the elements", w.InstrPos(at), "two different elements can be taken as equal, they stay in the order they came in", nil)
	})
}
