package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c07Parts: the parts of an entry are taken as they were written: an environment
// line is cut at its first '=', lines of a flow stay lines, error lines keep their
// order, and nothing that was read is taken away again.
func c07Parts(w *World, r *Report) {
	rule := "parts-are-read-as-they-were-written"
	var fs []*ssa.Function
	for f := range w.closureOf(w.Fn("core/model", "ParseExecutedFlow")) {
		if w.inPkg(f, "core/model") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return w.FuncKey(fs[i]) < w.FuncKey(fs[j]) })
	isPart := func(v ssa.Value) (string, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return "", false
		}
		t := deref(fa.X.Type())
		if !w.isNamed(t, "core/model", "ExecutedCmd") && !w.isNamed(t, "core/model", "ExecutedFlow") {
			return "", false
		}
		return fieldName(fa.X.Type(), fa.Field), true
	}
	for _, f := range fs {
		k := w.FuncKey(f)
		forEachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				name, ok := isPart(in.Addr)
				if !ok || freshPart(in.Addr) {
					return
				}
				switch v := in.Val.(type) {
				case *ssa.Const:
					if v.Value == nil {
						r.Violation(rule, k+" "+name, w.InstrPos(in), "what was read as "+name+" can be taken away again", nil)
					}
				case *ssa.Slice:
					if _, isField := derefVal(v.X).(*ssa.FieldAddr); isField || strings.HasPrefix(fieldRead(v.X), name) {
						r.Violation(rule, k+" "+name, w.InstrPos(in), "a part of what was read as "+name+" is cut off", nil)
					}
				case *ssa.Call:
					if fullName(v.Common()) == "strings.Join" {
						if s, ok := constString(v.Call.Args[1]); ok && s != "\n" {
							r.Violation(rule, k+" "+name, w.InstrPos(in), "the lines of "+name+" are not put together as lines", nil)
						} else if ok {
							r.Ok(rule, k+" "+name, w.InstrPos(in), "lines stay lines")
						}
					}
					if c := isAppend(v); c != nil {
						if fieldRead(c.Call.Args[0]) != name && len(c.Call.Args) > 1 && fieldRead(c.Call.Args[1]) == name {
							r.Violation(rule, k+" "+name, w.InstrPos(in), "the entries of "+name+" are put before the ones already read: their order is lost", nil)
						} else {
							r.Ok(rule, k+" "+name, w.InstrPos(in), "added after the ones read before")
						}
					}
				}
			case *ssa.Call:
				c := in.Common()
				if !w.callsMethod(c, "core/model", "Env", "Set") && !w.callsMethod(c, "core/model", "Env", "SetEx") {
					return
				}
				for _, a := range c.Args[1:] {
					if s := c07Cut(a, map[ssa.Value]bool{}); s != "" {
						r.Violation(rule, k+" env", w.InstrPos(in), "a key or value of a recorded environment is not taken as written ("+s+"): a line is to be cut at its first '='", nil)
					}
				}
				r.Ok(rule, k+" env", w.InstrPos(in), "cut at the first '='")
			}
		})
	}
	r.Floor(rule, 1)
}

func freshPart(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	al, ok := fa.X.(*ssa.Alloc)
	return ok && (al.Comment == "complit" || al.Comment == "new")
}

// c07Cut: a call on the way to v that changes or cuts the text in another way than
// at the first separator
func c07Cut(v ssa.Value, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		for _, x := range []ssa.Value{v.X, v.Low, v.High} {
			if s := c07Cut(x, seen); s != "" {
				return s
			}
		}
	case *ssa.BinOp:
		if s := c07Cut(v.X, seen); s != "" {
			return s
		}
		return c07Cut(v.Y, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := c07Cut(e, seen); s != "" {
				return s
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if ia, ok := v.X.(*ssa.IndexAddr); ok {
				return c07Cut(ia.X, seen)
			}
		}
	case *ssa.Extract:
		return c07Cut(v.Tuple, seen)
	case *ssa.Call:
		n := fullName(v.Common())
		switch {
		case strings.HasPrefix(n, "strings.Trim") && n != "strings.TrimPrefix", strings.HasPrefix(n, "strings.LastIndex"),
			n == "strings.Fields", n == "strings.Split", strings.HasPrefix(n, "strings.To"), strings.HasPrefix(n, "strings.Replace"):
			return n
		case n == "strings.TrimPrefix" || n == "strings.Index" || n == "strings.IndexByte" || n == "strings.Cut" || n == "strings.SplitN":
			if n == "strings.SplitN" {
				if c, ok := constInt(v.Call.Args[2]); ok && c != 2 {
					return n
				}
			}
			return c07Cut(v.Call.Args[0], seen)
		}
	}
	return ""
}
