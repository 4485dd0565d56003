package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: indexes and slices of texts, of bytes and of lists of texts.

func init() {
	register(&Prop{
		ID: "C15", Title: "No text, file or setting makes ticat read past the end of a text or a list",
		Explain: "Every index into and every slice of a text, of bytes or of a list of texts, in any function of the module, is a proof obligation (0 <= index < length, 0 <= start <= end <= length). It is decided over linear facts of the lengths and numbers involved: the conditions on the way to it, what the library says of its results, inductive loop invariants, what the functions called give back (in general, and by the bool or error they give), and what all callers say of the parameters.",
		Assume: []string{
			"the configured separators and marks (fields named …Sep/…Mark/…Left/…Right, values of the settings strs.*) are not empty",
			"filepath.Walk visits only paths below the cleaned root it is given",
		},
		Run: runC15,
	})
}

// beyond: accesses that rest on an invariant over data structures which the
// linear facts do not express; DESIGN.md gives the argument for each. The
// number is how many obligations of that function (and of helpers only it
// calls) may stay open.
var boundsBeyond = map[string]int{
	"(*core/model.ArgsAutoMapStatus).FlushCache":  1,
	"(*core/model.ArgsAutoMapStatus).reorderArgs": 2,
	"(*core/parser.EnvParser).TryParseRaw":        5,
	"(*mods/builtin.joinKvsIter).get":             2,
	"core/model.SaveFlowEnv":                      1,
	"core/model.parseMarkedContent":               1,
	"mods/builtin.EnvListSnapshots":               2,
	"mods/builtin.InteractiveMode":                1,
	"mods/builtin.loadLocalMods":                  1,
	"mods/persist/mod_meta.regMacro":              1,
	"utils.GoRoutineId":                           1,
}

type openObl struct {
	f *ssa.Function
	o bObl
}

func runC15(w *World, r *Report) {
	b := w.bounds()
	fs := append([]*ssa.Function(nil), w.Funcs...)
	sort.Slice(fs, func(i, j int) bool { return w.FuncKey(fs[i]) < w.FuncKey(fs[j]) })
	open := map[string][]openObl{}
	for _, f := range fs {
		if !w.InModule(f) || !b.made(f) {
			continue
		}
		n := 0
		for _, o := range b.fn(f).obligations() {
			if !textLike(seqOf(o.In).Type()) {
				continue
			}
			n++
			if b.proveObl(f, o) {
				r.Ok("text-bounds", w.FuncKey(f), w.InstrPos(o.In), o.What)
				continue
			}
			own := w.boundsOwner(f, 0)
			open[own] = append(open[own], openObl{f, o})
		}
		if n > 0 {
			r.Funcs[w.FuncKey(f)] = true
		}
	}
	var owners []string
	for k := range open {
		owners = append(owners, k)
	}
	sort.Strings(owners)
	for _, own := range owners {
		os := open[own]
		if len(os) <= boundsBeyond[own] {
			for _, p := range os {
				r.Ok("text-bounds-by-invariant", own, w.InstrPos(p.o.In), p.o.What+" (argument in DESIGN.md)")
			}
			continue
		}
		for _, p := range os {
			r.Violation("text-bounds", w.FuncKey(p.f)+": "+oblText(p.o), w.InstrPos(p.o.In),
				fmt.Sprintf("%s: not so on every way here (needed: %s >= 0)", oblText(p.o), p.o.Goal), nil)
		}
	}
	r.Floor("text-bounds", 1000)
}

// oblText: what is to hold of which access
func oblText(o bObl) string {
	return o.What + " of " + valName(seqOf(o.In))
}

func valName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Name()
	case *ssa.FreeVar:
		return v.Name()
	case *ssa.UnOp:
		return valName(v.X)
	case *ssa.Alloc:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.Phi:
		if v.Comment != "" {
			return v.Comment
		}
	case *ssa.FieldAddr:
		return fieldName(v.X.Type(), v.Field)
	case *ssa.Field:
		return fieldName(v.X.Type(), v.Field)
	case *ssa.Call:
		if o := calleeObj(&v.Call); o != nil {
			return "the result of " + o.Name()
		}
	}
	return "a " + strings.TrimPrefix(v.Type().String(), "*")
}

// boundsOwner: the declared function whose list of open obligations this one
// is on: itself, or the one that alone calls it if that is listed.
func (w *World) boundsOwner(f *ssa.Function, depth int) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	k := w.FuncKey(f)
	if _, ok := boundsBeyond[k]; ok || depth > 3 {
		return k
	}
	us, all := w.bounds().uses(f)
	own := ""
	if all {
		for _, u := range us {
			o := w.boundsOwner(u.Parent(), depth+1)
			if _, ok := boundsBeyond[o]; !ok || own != "" && own != o {
				return k
			}
			own = o
		}
	}
	if own != "" {
		return own
	}
	return k
}
