package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic strings: where a path, a name or an id comes from. A value built by
// the functions below is named after how it was built ("@join(@env:x,@name(..))"),
// so that a rule can see which directory and which entry a file operation is about.

func strName(s *State, a *AV) string {
	if a == nil {
		return "?"
	}
	if a.K == kSym {
		if f, ok := s.facts[a.Sym]; ok && strings.HasPrefix(f.Eq, "s:") {
			return "=" + f.Eq
		}
		return a.Sym
	}
	return a.Key()
}

// nodeName: a name which may be used inside another
var nameSan = strings.NewReplacer(".", "·", "[", "⟨", "]", "⟩", "%", "٪")

// pathValue names computed strings; for Spec.Value
func (w *World) pathValue(x *Ctx, v ssa.Value) *AV {
	switch v := v.(type) {
	case *ssa.BinOp:
		t, ok := v.X.Type().Underlying().(*types.Basic)
		if !ok || t.Info()&types.IsString == 0 {
			return nil
		}
		l, r := x.Val(v.X), x.Val(v.Y)
		_, lc := x.St.ConstOf(l)
		_, rc := x.St.ConstOf(r)
		switch v.Op {
		case token.ADD:
			if lc && rc {
				return nil
			}
			return avSym("@cat(" + nameSan.Replace(strName(x.St, l)) + "," + nameSan.Replace(strName(x.St, r)) + ")")
		case token.EQL, token.NEQ:
			if lc || rc || l.K != kSym || r.K != kSym {
				return nil
			}
			a, b := l.Sym, r.Sym
			if a > b {
				a, b = b, a
			}
			return &AV{K: kPred, Sym: "@eq(" + nameSan.Replace(a) + "," + nameSan.Replace(b) + ")", C: "true", Neg: v.Op == token.NEQ}
		}
	case *ssa.UnOp:
		// an element of what strings.Split returned
		if v.Op == token.MUL {
			if ia, ok := v.X.(*ssa.IndexAddr); ok {
				b := x.Val(ia.X)
				if b.K == kSym && strings.HasPrefix(b.Sym, "@split(") {
					if i, ok := x.St.ConstOf(x.Val(ia.Index)); ok {
						return avSym("@part(" + b.Sym + "," + i + ")")
					}
				}
			}
		}
	}
	return nil
}

// pathCall names the results of functions on strings and paths; nil: not one of them
func (w *World) pathCall(x *Ctx, c *ssa.CallCommon, args []*AV) *Action {
	one := func(a *AV) *Action { return &Action{Alts: []Alt{{Results: []*AV{a}}}} }
	nm := func(a *AV) string { return nameSan.Replace(strName(x.St, a)) }
	n := fullName(c)
	switch n {
	case "path/filepath.Join", "path.Join":
		el := arrayStores(c.Args[0])
		var ps []string
		for i := 0; i < len(el); i++ {
			if el[int64(i)] == nil {
				return nil
			}
			ps = append(ps, nm(x.Val(el[int64(i)])))
		}
		if len(ps) == 0 {
			return nil
		}
		return one(avSym("@join(" + strings.Join(ps, ",") + ")"))
	case "strings.TrimSpace", "path/filepath.Clean":
		if args[0].K == kSym {
			return one(args[0])
		}
	case "path/filepath.Base":
		return one(avSym("@base(" + nm(args[0]) + ")"))
	case "path/filepath.Dir":
		return one(avSym("@dir(" + nm(args[0]) + ")"))
	case "strings.Split", "strings.SplitN":
		return one(avNonNil("@split(" + nm(args[0]) + ")"))
	case "strings.HasSuffix":
		return one(avSym("@suffix(" + nm(args[0]) + "," + nm(args[1]) + ")"))
	}
	if c.IsInvoke() && (c.Method.FullName() == "(io/fs.DirEntry).Name" || c.Method.FullName() == "(io/fs.FileInfo).Name") {
		return one(avSym("@name(" + nm(args[0]) + ")"))
	}
	o := calleeObj(c)
	if o == nil {
		return nil
	}
	// a raw value of the environment, or of an argument
	if len(c.Args) >= 2 {
		if k, ok := x.St.ConstOf(args[1]); ok && strings.HasPrefix(k, "s:") {
			if strings.HasPrefix(o.Name(), "Get") {
				switch {
				case w.callsMethod(c, "core/model", "Env", o.Name()):
					if o.Type().(*types.Signature).Results().Len() == 1 {
						return one(avSym("@env:" + nameSan.Replace(k[2:])))
					}
				case w.callsMethod(c, "core/model", "ArgVals", o.Name()):
					if o.Type().(*types.Signature).Results().Len() == 1 {
						return one(avSym("@arg:" + nameSan.Replace(k[2:])))
					}
				}
			}
		}
	}
	return nil
}

// climb judges root; if it fails there and root is a helper (it has static
// callers in the module), its callers are judged instead, with it followed in
// their context. bodies are where climbing ends.
func (w *World) climb(r *Report, root *ssa.Function, depth int, judge func(root *ssa.Function, r *Report) (reached bool)) bool {
	tmp := NewReport(r.Prop)
	if !judge(root, tmp) {
		return false
	}
	merge := func() {
		r.Steps += tmp.Steps
		r.Paths += tmp.Paths
		for f := range tmp.Funcs {
			r.Funcs[f] = true
		}
		for _, o := range tmp.Obls {
			r.Ok(o.Rule, o.Construct, o.Pos, o.Detail)
		}
	}
	merge()
	if debugProf {
		for _, f := range tmp.Finds {
			println("CLIMB", w.FuncKey(root), f.Construct, f.Msg, strings.Join(f.Trace, " / "))
		}
	}
	if len(tmp.Finds) == 0 {
		return true
	}
	callers := map[*ssa.Function]bool{}
	for _, c := range w.callerFns()[root] {
		callers[topFunc(c)] = true
	}
	delete(callers, root)
	any := false
	if depth > 0 {
		for _, c := range sortFns(w, callers) {
			if w.climb(r, c, depth-1, judge) {
				any = true
			}
		}
	}
	if !any {
		for _, f := range tmp.Finds {
			r.Violation(f.Rule, f.Construct, f.Pos, f.Msg, f.Trace)
		}
	}
	return true
}

func sortFns(w *World, m map[*ssa.Function]bool) []*ssa.Function {
	byKey := map[string]*ssa.Function{}
	for f := range m {
		byKey[w.FuncKey(f)] = f
	}
	var out []*ssa.Function
	for _, k := range sortedKeys(byKey) {
		out = append(out, byKey[k])
	}
	return out
}
