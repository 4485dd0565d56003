package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command registration table: a flow-insensitive origin analysis of the
// *Cmd values built by Reg* calls and refined by chained Add*/Set* calls.

type RegCall struct {
	Name string
	Call *ssa.CallCommon
	In   ssa.Instruction
	Args []ssa.Value // without the receiver
}

type RegSite struct {
	In    ssa.CallInstruction
	Kind  string          // RegCmd, RegPowerCmd, ...
	Funcs []*ssa.Function // command bodies
	Calls []RegCall       // chained configuration calls
	Fn    *ssa.Function
}

func (s *RegSite) Has(name string) bool {
	for _, c := range s.Calls {
		if c.Name == name {
			return true
		}
	}
	return false
}

type RegTable struct {
	// functions with configuration calls of a command that is not known
	Loose map[*ssa.Function]bool
	Sites []*RegSite
	by    map[ssa.Instruction]*RegSite
}

func isRegName(n string) bool {
	return strings.HasPrefix(n, "Reg") || strings.HasPrefix(n, "Replace")
}

// callersOf: static call sites of every module function (closures included).
func (w *World) callersOf() map[*ssa.Function][]*ssa.CallCommon {
	if w.sites != nil {
		return w.sites
	}
	w.sites = map[*ssa.Function][]*ssa.CallCommon{}
	for f := range w.inMod {
		if len(f.Blocks) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range calleesOf(c.Common()) {
				w.sites[g] = append(w.sites[g], c.Common())
			}
		})
	}
	return w.sites
}

// callerFns: the functions that call a function directly
func (w *World) callerFns() map[*ssa.Function][]*ssa.Function {
	return w.Memo("callerFns", func() interface{} {
		out := map[*ssa.Function][]*ssa.Function{}
		for _, f := range w.Funcs {
			if len(f.Blocks) == 0 {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range calleesOf(c.Common()) {
						out[g] = append(out[g], f)
					}
				}
			})
		}
		return out
	}).(map[*ssa.Function][]*ssa.Function)
}

// calleesOf: the functions a call may reach as far as def-use chains tell
// (static callees, closures held in a local variable).
func calleesOf(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return nil
	}
	return funcsOf(c.Value, 0)
}

// funcsOf: function constants a value may hold.
func funcsOf(v ssa.Value, depth int) []*ssa.Function {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return funcsOf(v.X, depth+1)
	case *ssa.MakeInterface:
		return funcsOf(v.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			if e != v {
				out = append(out, funcsOf(e, depth+1)...)
			}
		}
		return out
	case *ssa.UnOp:
		// a local variable: every value stored into it
		return storedFuncs(v.X, depth+1)
	case *ssa.FreeVar:
		var out []*ssa.Function
		for _, b := range bindingsOf(v) {
			out = append(out, funcsOf(b, depth+1)...)
		}
		return out
	}
	return nil
}

func storedFuncs(addr ssa.Value, depth int) []*ssa.Function {
	if depth > 8 {
		return nil
	}
	switch a := addr.(type) {
	case *ssa.Alloc, *ssa.Global:
		var out []*ssa.Function
		for _, s := range storesTo(a) {
			out = append(out, funcsOf(s.Val, depth+1)...)
		}
		return out
	case *ssa.FreeVar:
		var out []*ssa.Function
		for _, b := range bindingsOf(a) {
			out = append(out, storedFuncs(b, depth+1)...)
		}
		return out
	case *ssa.IndexAddr:
		return elemFuncs(a.X, depth+1)
	}
	return nil
}

// elemFuncs: function constants held by the elements of a slice/array literal.
func elemFuncs(v ssa.Value, depth int) []*ssa.Function {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Slice:
		return elemFuncs(v.X, depth+1)
	case *ssa.Alloc:
		var out []*ssa.Function
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, s := range storesTo(ia) {
					out = append(out, funcsOf(s.Val, depth+1)...)
				}
			}
		}
		return out
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			if e != v {
				out = append(out, elemFuncs(e, depth+1)...)
			}
		}
		return out
	case *ssa.Call:
		// append(list, more...) and helpers returning a literal
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			var out []*ssa.Function
			for _, a := range v.Call.Args {
				out = append(out, elemFuncs(a, depth+1)...)
			}
			return out
		}
		if f := v.Call.StaticCallee(); f != nil {
			return returnedElems(f, depth+1)
		}
	case *ssa.UnOp:
		var out []*ssa.Function
		switch a := v.X.(type) {
		case *ssa.Alloc, *ssa.Global:
			for _, s := range storesTo(a) {
				out = append(out, elemFuncs(s.Val, depth+1)...)
			}
		}
		return out
	}
	return nil
}

func returnedElems(f *ssa.Function, depth int) []*ssa.Function {
	var out []*ssa.Function
	forEachInstr(f, func(in ssa.Instruction) {
		if r, ok := in.(*ssa.Return); ok {
			for _, x := range r.Results {
				out = append(out, elemFuncs(x, depth+1)...)
			}
		}
	})
	return out
}

func storesTo(a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	if g, ok := a.(*ssa.Global); ok {
		if init := g.Pkg.Func("init"); init != nil {
			forEachInstr(init, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && s.Addr == a {
					out = append(out, s)
				}
			})
		}
		return out
	}
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			out = append(out, s)
		}
	}
	return out
}

// bindingsOf: values bound to a free variable where its closure is made.
func bindingsOf(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	var out []ssa.Value
	if f.Parent() == nil || idx < 0 {
		return nil
	}
	forEachInstr(f.Parent(), func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && idx < len(mc.Bindings) {
			out = append(out, mc.Bindings[idx])
		}
	})
	return out
}

func (w *World) Registrations() *RegTable {
	if w.regs != nil {
		return w.regs
	}
	t := &RegTable{Loose: map[*ssa.Function]bool{}, by: map[ssa.Instruction]*RegSite{}}
	w.regs = t
	isCmd := func(tp types.Type) bool { return w.isPtrTo(tp, "core/model", "Cmd") }
	for _, f := range w.Funcs {
		if !w.InModule(f) {
			continue
		}
		f := f
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			o := calleeObj(c.Common())
			if o == nil || !isRegName(o.Name()) || !w.callsMethod(c.Common(), "core/model", "CmdTree", o.Name()) {
				return
			}
			s := &RegSite{In: c, Kind: o.Name(), Fn: f}
			for _, a := range c.Common().Args[1:] {
				s.Funcs = append(s.Funcs, funcsOf(a, 0)...)
			}
			t.Sites = append(t.Sites, s)
			t.by[in] = s
		})
	}
	for _, f := range w.Funcs {
		if !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().IsInvoke() || len(c.Common().Args) == 0 {
				return
			}
			o := calleeObj(c.Common())
			if o == nil || !isCmd(c.Common().Args[0].Type()) || !w.callsMethod(c.Common(), "core/model", "Cmd", o.Name()) {
				return
			}
			if !strings.HasPrefix(o.Name(), "Set") && !strings.HasPrefix(o.Name(), "Add") && !strings.HasPrefix(o.Name(), "Reg") {
				return
			}
			origins := w.cmdOrigins(c.Common().Args[0], map[ssa.Value]bool{})
			if len(origins) == 0 {
				t.Loose[in.Parent()] = true
			}
			for s := range origins {
				s.Calls = append(s.Calls, RegCall{o.Name(), c.Common(), in, c.Common().Args[1:]})
			}
		})
	}
	return t
}

func (w *World) cmdOrigins(v ssa.Value, seen map[ssa.Value]bool) map[*RegSite]bool {
	out := map[*RegSite]bool{}
	if seen[v] {
		return out
	}
	seen[v] = true
	add := func(x ssa.Value) {
		for s := range w.cmdOrigins(x, seen) {
			out[s] = true
		}
	}
	switch v := v.(type) {
	case *ssa.Call:
		if s := w.regs.by[v]; s != nil {
			out[s] = true
			return out
		}
		if len(v.Call.Args) > 0 && w.isPtrTo(v.Call.Args[0].Type(), "core/model", "Cmd") && v.Call.Signature().Recv() != nil {
			add(v.Call.Args[0])
			return out
		}
		if len(v.Call.Args) == 1 && w.callsMethod(&v.Call, "core/model", "CmdTree", "Cmd") {
			// the command that was registered at this node
			for _, s := range w.regs.Sites {
				if len(s.In.Common().Args) > 0 && sameNode(s.In.Common().Args[0], v.Call.Args[0]) {
					out[s] = true
				}
			}
			return out
		}
		for _, f := range calleesOf(&v.Call) {
			forEachInstr(f, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok {
					for _, x := range r.Results {
						if w.isPtrTo(x.Type(), "core/model", "Cmd") {
							add(x)
						}
					}
				}
			})
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			add(e)
		}
	case *ssa.Parameter:
		idx := -1
		for i, p := range v.Parent().Params {
			if p == v {
				idx = i
			}
		}
		for _, c := range w.callersOf()[v.Parent()] {
			if !c.IsInvoke() && idx < len(c.Args) {
				add(c.Args[idx])
			}
		}
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.Alloc:
			for _, s := range storesTo(a) {
				add(s.Val)
			}
		case *ssa.FreeVar:
			for _, b := range bindingsOf(a) {
				for _, s := range storesTo(b) {
					add(s.Val)
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range bindingsOf(v) {
			add(b)
		}
	case *ssa.Extract:
		add(v.Tuple)
	}
	return out
}

// sameNode: two uses of one variable
func sameNode(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.X == y.X
}
