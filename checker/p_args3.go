package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c18MetaDefault: the default of an argument is what its line in the module's file says
func c18MetaDefault(w *World, r *Report) {
	rule := "a-default-is-what-the-file-says"
	for _, f := range w.Funcs {
		if !w.inPkg(f, "mods/persist/mod_meta") {
			continue
		}
		k := w.FuncKey(f)
		f := f
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !w.callsMethod(c.Common(), "core/model", "Cmd", "AddArg") || len(c.Call.Args) < 3 {
				return
			}
			r.Funcs[k] = true
			seen := map[ssa.Value]bool{}
			got := false
			var bad string
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				if seen[v] || bad != "" {
					return
				}
				seen[v] = true
				switch v := v.(type) {
				case *ssa.Phi:
					for _, e := range v.Edges {
						walk(e)
					}
				case *ssa.Const:
					bad = "it is a fixed text on some way"
				case *ssa.UnOp:
					if _, ok := v.X.(*ssa.IndexAddr); ok {
						bad = "it is one of a list of words cut out of the line"
					}
				case *ssa.Slice:
					if v.High == nil {
						bad = "its begin is cut off"
						return
					}
					if v.Low != nil {
						if n, ok := constInt(v.Low); !ok || n != 0 {
							bad = "its begin is cut off"
							return
						}
					}
					if h, ok := v.High.(*ssa.Call); ok && fullName(h.Common()) == "strings.Index" {
						bad = "it is cut at the first bracket, not at that of its list of choices"
						return
					}
					walk(v.X)
				case *ssa.Call:
					n := fullName(v.Common())
					switch {
					case w.callsMethod(v.Common(), "mods/persist/meta_file", "Section", "Get"), w.callsMethod(v.Common(), "mods/persist/meta_file", "Section", "GetUnTrim"):
						got = true
					case n == "strings.TrimSpace", n == "strings.TrimRight", n == "strings.TrimSuffix":
						walk(v.Call.Args[0])
					case strings.HasPrefix(n, "strings."):
						bad = "it is changed by " + n
					}
				}
			}
			walk(c.Call.Args[2])
			if bad != "" {
				r.Violation(rule, k, w.InstrPos(in), "the default of a module's argument is not what its file says: "+bad, nil)
				return
			}
			if got {
				r.Ok(rule, k, w.InstrPos(in), "the value of its line, less its list of choices")
			}
		})
	}
}
