package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which struct fields (by name) a function may write, transitively, in objects
// that existed before it was called. Interface calls are resolved to the
// module's implementations, calls of function values by signature.

type modInfo struct {
	fields map[string]bool
	calls  map[*ssa.Function]bool
}

func (w *World) modInit() {
	if w.mods != nil {
		return
	}
	w.mods = map[*ssa.Function]map[string]bool{}
	w.invC = map[string][]*ssa.Function{}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	rev := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range w.inMod {
		w.mods[f] = map[string]bool{}
		calls[f] = map[*ssa.Function]bool{}
	}
	for f := range w.inMod {
		if len(f.Blocks) == 0 {
			continue
		}
		m := w.mods[f]
		forEachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				addWritten(m, in.Addr)
			case *ssa.MapUpdate:
				addWrittenVal(m, in.Map)
			case ssa.CallInstruction:
				c := in.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") && len(c.Args) > 0 {
						addWrittenVal(m, c.Args[0])
					}
					return
				}
				for _, g := range w.Callees(c) {
					calls[f][g] = true
				}
			case *ssa.MakeClosure:
				calls[f][in.Fn.(*ssa.Function)] = true
			}
		})
	}
	for f, cs := range calls {
		for g := range cs {
			if rev[g] == nil {
				rev[g] = map[*ssa.Function]bool{}
			}
			rev[g][f] = true
		}
	}
	var work []*ssa.Function
	for f := range w.mods {
		if len(w.mods[f]) > 0 {
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		for f := range rev[g] {
			ch := false
			for k := range w.mods[g] {
				if !w.mods[f][k] {
					w.mods[f][k] = true
					ch = true
				}
			}
			if ch {
				work = append(work, f)
			}
		}
	}
}

// Callees resolves a call to module functions.
func (w *World) Callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		key := c.Method.Name() + "|" + c.Value.Type().String()
		if l, ok := w.invC[key]; ok {
			return l
		}
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		var out []*ssa.Function
		for f := range w.inMod {
			if f.Name() != c.Method.Name() || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
				continue
			}
			if iface != nil && types.Implements(f.Signature.Recv().Type(), iface) {
				out = append(out, f)
			}
		}
		if w.invC == nil {
			w.invC = map[string][]*ssa.Function{}
		}
		w.invC[key] = out
		return out
	}
	if l := calleesOf(c); len(l) > 0 {
		return l
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	// a function value: everything with its signature
	sig, ok := c.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	key := "sig|" + sig.String()
	if l, ok := w.invC[key]; ok {
		return l
	}
	var out []*ssa.Function
	for f := range w.inMod {
		if len(f.Blocks) == 0 || f.Signature.Recv() != nil {
			continue
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), sig) {
			out = append(out, f)
		}
	}
	if w.invC == nil {
		w.invC = map[string][]*ssa.Function{}
	}
	w.invC[key] = out
	return out
}

func addWritten(m map[string]bool, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if _, fresh := rootAddr(a).(*ssa.Alloc); fresh {
			return
		}
		m[fieldName(a.X.Type(), a.Field)] = true
	case *ssa.IndexAddr:
		if _, fresh := rootAddr(a).(*ssa.Alloc); fresh {
			return
		}
		m["[]"] = true
	case *ssa.Alloc, *ssa.Global:
	default:
		// a whole object behind a pointer
		m["*"] = true
		if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
			addFields(m, p.Elem(), 0)
		}
	}
}

func addFields(m map[string]bool, t types.Type, depth int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		m[st.Field(i).Name()] = true
		addFields(m, st.Field(i).Type(), depth+1)
	}
}

// a map (or slice) whose content is changed
func addWrittenVal(m map[string]bool, v ssa.Value) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			if _, fresh := rootAddr(fa).(*ssa.Alloc); fresh {
				return
			}
			m[fieldName(fa.X.Type(), fa.Field)+"%len"] = true
			return
		}
	case *ssa.Field:
		m[fieldName(v.X.Type(), v.Field)+"%len"] = true
		return
	case *ssa.MakeMap:
		return
	}
	m["%len"] = true
}

// writesOf: union of what the possible callees write; ok=false if unknown.
func (w *World) writesOf(c *ssa.CallCommon, callee *ssa.Function) (map[string]bool, bool) {
	w.modInit()
	if callee != nil {
		m, ok := w.mods[callee]
		return m, ok
	}
	l := w.Callees(c)
	if len(l) == 0 {
		return nil, false
	}
	out := map[string]bool{}
	for _, f := range l {
		m, ok := w.mods[f]
		if !ok {
			return nil, false
		}
		for k := range m {
			out[k] = true
		}
	}
	return out, true
}

// pathHit: a path symbol below root may be changed by a callee writing m.
func pathHit(path, root string, m map[string]bool) bool {
	rest := path[len(root):]
	if m["*"] && strings.HasPrefix(rest, "%") {
		return true
	}
	i := 0
	for i < len(rest) {
		switch rest[i] {
		case '.':
			j := i + 1
			for j < len(rest) && !strings.ContainsRune(".[%", rune(rest[j])) {
				j++
			}
			name := rest[i+1 : j]
			name = strings.TrimSuffix(name, "~")
			if m[name] {
				return true
			}
			if j < len(rest) && rest[j] == '%' && m[name+"%len"] {
				return true
			}
			i = j
		case '[':
			if m["[]"] || m["*"] {
				return true
			}
			j := i + 1
			for j < len(rest) && rest[j] != ']' {
				j++
			}
			i = j + 1
		case '%':
			if i == 0 && m["%len"] {
				return true
			}
			j := i + 1
			for j < len(rest) && !strings.ContainsRune(".[%", rune(rest[j])) {
				j++
			}
			i = j
		default:
			i++
		}
	}
	return false
}
