package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Prop is one property with the static rules that decide it.
type Prop struct {
	ID, Title string
	Level     string
	Explain   string
	Assume    []string
	Run       func(w *World, r *Report)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "other"
	}
	props[p.ID] = p
}

func runProp(p *Prop, w *World, r *Report) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(Undecided); ok {
				r.Violation("undecided", u.Msg, "-", "the property could not be decided: "+u.Msg, nil)
				return
			}
			r.Violation("undecided", "analyser-panic", "-", fmt.Sprintf("the analysis stopped: %v\n%s", x, debug.Stack()), nil)
		}
	}()
	p.Run(w, r)
}

func main() {
	repo := os.Getenv("TICAT_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 1 && ids[0] == "list" {
		for _, id := range sortedKeys(props) {
			fmt.Println(id, props[id].Title)
		}
		return
	}
	if len(ids) == 1 && ids[0] == "funcs" {
		dumpFuncs(repo)
		return
	}
	w, err := LoadWorld(repo)
	if len(ids) == 1 && ids[0] == "load" {
		fmt.Println(err)
		return
	}
	if len(ids) == 1 && ids[0] == "regs" {
		dumpRegs(w)
		return
	}
	if len(ids) == 1 && ids[0] == "envfx" {
		dumpEnvFx(w)
		dumpOwn(w)
		return
	}
	if len(ids) >= 1 && ids[0] == "carry" {
		dumpCarry(w)
		return
	}
	if len(ids) >= 1 && ids[0] == "order" {
		dumpOrder(w)
		return
	}
	if len(ids) >= 1 && ids[0] == "bounds" {
		dumpBounds(w, strings.Join(ids[1:], ""))
		return
	}
	if len(ids) == 3 && ids[0] == "mods" {
		dumpMods(w, ids[1], ids[2])
		return
	}
	rc := 0
	for _, id := range ids {
		p := props[id]
		r := NewReport(id)
		if p == nil {
			fmt.Printf("unknown property %s\n", id)
			os.Exit(2)
		}
		if err != nil {
			r.Violation("undecided", "load", "-", "the program could not be loaded: "+err.Error(), nil)
			w = nil
		} else {
			runProp(p, w, r)
		}
		if r.Finish(verif, p, w) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func dumpRegs(w *World) {
	for _, s := range w.Registrations().Sites {
		fmt.Print(w.InstrPos(s.In), " ", s.Kind, " ")
		for _, f := range s.Funcs {
			fmt.Print(f.Name(), " ")
		}
		for _, c := range s.Calls {
			fmt.Print(".", c.Name)
		}
		fmt.Println()
	}
}

// dumpMods explains why a function may write a field: a shortest call chain.
func dumpMods(w *World, name, field string) {
	w.modInit()
	for f := range w.inMod {
		if w.FuncKey(f) != name {
			continue
		}
		fmt.Println(sortedKeys(w.mods[f]))
		prev := map[*ssa.Function]*ssa.Function{f: nil}
		q := []*ssa.Function{f}
		for len(q) > 0 {
			g := q[0]
			q = q[1:]
			direct := false
			m := map[string]bool{}
			forEachInstr(g, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					addWritten(m, s.Addr)
				}
			})
			direct = m[field]
			if direct {
				for ; g != nil; g = prev[g] {
					fmt.Println("  ", w.FuncKey(g))
				}
				return
			}
			forEachInstr(g, func(in ssa.Instruction) {
				var cs []*ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					cs = w.Callees(c.Common())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					cs = append(cs, mc.Fn.(*ssa.Function))
				}
				for _, h := range cs {
					if _, ok := prev[h]; !ok && len(h.Blocks) > 0 {
						prev[h] = g
						q = append(q, h)
					}
				}
			})
		}
	}
}
