package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calls to a module function/method/interface method, matched by resolved object
func (w *World) callsMethod(c *ssa.CallCommon, pkg, typ, name string) bool {
	o := calleeObj(c)
	if o == nil || o.Name() != name || o.Pkg() == nil || o.Pkg().Path() != w.pkgPath(pkg) {
		return false
	}
	sig := o.Type().(*types.Signature)
	if typ == "" {
		return sig.Recv() == nil
	}
	if sig.Recv() == nil {
		return false
	}
	if w.isNamed(sig.Recv().Type(), pkg, typ) {
		return true
	}
	return false
}

func (w *World) isMethod(f *ssa.Function, pkg, typ, name string) bool {
	if f == nil || f.Name() != name {
		return false
	}
	o, ok := f.Object().(*types.Func)
	if !ok || o.Pkg() == nil || o.Pkg().Path() != w.pkgPath(pkg) {
		return false
	}
	sig := o.Type().(*types.Signature)
	if typ == "" {
		return sig.Recv() == nil
	}
	return sig.Recv() != nil && w.isNamed(sig.Recv().Type(), pkg, typ)
}

// callsExecutor: a call of the executor interface's Execute, or of its implementation
func (w *World) callsExecutorExecute(c *ssa.CallCommon) bool {
	return w.callsMethod(c, "core/model", "Executor", "Execute") || w.callsMethod(c, "core/execute", "Executor", "Execute")
}

// dynCallOf: a call through a value of the named function type (NormalCmd, PowerCmd...)
func (w *World) dynCallOf(c *ssa.CallCommon, pkg, typ string) bool {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	return w.isNamed(c.Value.Type(), pkg, typ)
}

// sigIs: function has the same signature as the named function type
func (w *World) sigIs(f *ssa.Function, pkg, typ string) bool {
	n := w.NamedOpt(pkg, typ)
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	return types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), s)
}

func (w *World) isCmdFunc(f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		return false
	}
	return w.sigIs(f, "core/model", "PowerCmd") || w.sigIs(f, "core/model", "NormalCmd")
}

func pkgOf(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		f = f.Parent()
	}
	return ""
}

func (w *World) inPkg(f *ssa.Function, short string) bool { return pkgOf(f) == w.pkgPath(short) }

func topFunc(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// isErrorType
func isErrorType(t types.Type) bool { return t.String() == "error" }

func lastBoolIdx(s *types.Signature) int {
	for i := s.Results().Len() - 1; i >= 0; i-- {
		if b, ok := s.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return i
		}
	}
	return -1
}

func short(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// pureGetter: reads of the environment and of the command tree's metadata; they
// change nothing and are not followed.
func (w *World) pureGetter(c *ssa.CallCommon) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != w.pkgPath("core/model") {
		return false
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() == nil || !w.isNamed(sig.Recv().Type(), "core/model", "Env") {
		return false
	}
	n := o.Name()
	for _, p := range []string{"Get", "Has", "Layer", "Parent", "Flatten", "Pairs"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// isField: v is the address (or value) of field name of the named struct type.
func (w *World) isField(v ssa.Value, pkg, typ, name string) bool {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldName(v.X.Type(), v.Field) == name && w.isNamed(deref(v.X.Type()), pkg, typ)
	case *ssa.Field:
		return fieldName(v.X.Type(), v.Field) == name && w.isNamed(v.X.Type(), pkg, typ)
	case *ssa.UnOp:
		return v.Op == token.MUL && w.isField(v.X, pkg, typ, name)
	}
	return false
}

// calledGetter: the receiver if v is the result of calling the method, or of
// the field the method returns (the call put in place of the body).
func (w *World) calledGetter(v ssa.Value, pkg, typ, name string) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if w.callsMethod(&c.Call, pkg, typ, name) && len(c.Call.Args) > 0 {
			return c.Call.Args[0]
		}
		return nil
	}
	f := w.Method(pkg, typ, name)
	if len(f.Blocks) != 1 || len(f.Params) != 1 {
		return nil
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil
	}
	a, b := ret.Results[0], v
	for {
		if a == ssa.Value(f.Params[0]) {
			return b
		}
		switch x := a.(type) {
		case *ssa.UnOp:
			y, ok := b.(*ssa.UnOp)
			if !ok || y.Op != x.Op {
				return nil
			}
			a, b = x.X, y.X
		case *ssa.FieldAddr:
			y, ok := b.(*ssa.FieldAddr)
			if !ok || y.Field != x.Field || !types.Identical(x.X.Type(), y.X.Type()) {
				return nil
			}
			a, b = x.X, y.X
		default:
			return nil
		}
	}
}
