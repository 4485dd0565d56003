package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// derived: values computed from root by field and element access only
// (loads, fields, elements, slices, conversions, phis).
func derivedFrom(v ssa.Value, root func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if root(v) {
		return true
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return derivedFrom(v.X, root, seen)
		}
	case *ssa.FieldAddr:
		return derivedFrom(v.X, root, seen)
	case *ssa.Field:
		return derivedFrom(v.X, root, seen)
	case *ssa.IndexAddr:
		return derivedFrom(v.X, root, seen)
	case *ssa.Index:
		return derivedFrom(v.X, root, seen)
	case *ssa.Lookup:
		return derivedFrom(v.X, root, seen)
	case *ssa.Slice:
		return derivedFrom(v.X, root, seen)
	case *ssa.ChangeType:
		return derivedFrom(v.X, root, seen)
	case *ssa.ChangeInterface:
		return derivedFrom(v.X, root, seen)
	case *ssa.MakeInterface:
		return derivedFrom(v.X, root, seen)
	case *ssa.TypeAssert:
		return derivedFrom(v.X, root, seen)
	case *ssa.Extract:
		return derivedFrom(v.Tuple, root, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if derivedFrom(e, root, seen) {
				return true
			}
		}
	case *ssa.Alloc:
		for _, s := range storesTo(v) {
			if derivedFrom(s.Val, root, seen) {
				return true
			}
		}
	}
	return false
}

func sharing(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if sharing(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// freshObj collects the allocations a value certainly denotes: nil when it may be
// something that existed before.
func (w *World) freshObj(v ssa.Value, depth int) (objs []ssa.Value, ok bool) {
	if depth > 8 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		if _, isPtr := deref(v.Type()).Underlying().(*types.Pointer); isPtr || !v.Heap {
			// a variable
			ss := storesTo(v)
			if len(ss) == 0 {
				return []ssa.Value{v}, true
			}
			if isPtr {
				for _, s := range ss {
					o, k := w.freshObj(s.Val, depth+1)
					if !k {
						return nil, false
					}
					objs = append(objs, o...)
				}
				return objs, true
			}
		}
		return []ssa.Value{v}, true
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return []ssa.Value{v}, true
	case *ssa.Const:
		return nil, true
	case *ssa.MakeInterface:
		return w.freshObj(v.X, depth+1)
	case *ssa.ChangeType:
		return w.freshObj(v.X, depth+1)
	case *ssa.ChangeInterface:
		return w.freshObj(v.X, depth+1)
	case *ssa.UnOp:
		if a, isA := v.X.(*ssa.Alloc); isA && v.Op == token.MUL {
			for _, s := range storesTo(a) {
				o, k := w.freshObj(s.Val, depth+1)
				if !k {
					return nil, false
				}
				objs = append(objs, o...)
			}
			return objs, len(storesTo(a)) > 0
		}
	case *ssa.Slice:
		if a, isA := v.X.(*ssa.Alloc); isA {
			return []ssa.Value{a}, true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			o, k := w.freshObj(e, depth+1)
			if !k {
				return nil, false
			}
			objs = append(objs, o...)
		}
		return objs, true
	case *ssa.Extract:
		if c, isC := v.Tuple.(*ssa.Call); isC {
			return w.freshCall(&c.Call, v.Index, depth)
		}
	case *ssa.Call:
		return w.freshCall(&v.Call, 0, depth)
	}
	return nil, false
}

func (w *World) freshCall(c *ssa.CallCommon, idx, depth int) (objs []ssa.Value, ok bool) {
	gs := w.Callees(c)
	if len(gs) == 0 {
		return nil, false
	}
	for _, g := range gs {
		good := true
		n := 0
		forEachInstr(g, func(in ssa.Instruction) {
			if r, isR := in.(*ssa.Return); isR && idx < len(r.Results) {
				n++
				o, k := w.freshObj(r.Results[idx], depth+1)
				good = good && k
				objs = append(objs, o...)
			}
		})
		if !good || n == 0 {
			return nil, false
		}
	}
	return objs, true
}
