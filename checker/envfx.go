package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Effects on environments: for every function and every *Env (or Env) parameter
// or captured variable, may the function change that env's own layer, or layers
// below it in its parent chain? Summaries are computed to a fixpoint over the
// whole module; clones are fresh, a new layer protects its parents' own values
// from plain writes but not from writes that walk the chain.

type envRel uint8

const (
	relOwn   envRel = iota // the env itself
	relLayer               // the env or one of its ancestors
	relAbove               // a layer put on top of the env
)

type envOrigin struct {
	Param int // index into params, or len(params)+i for free variables; -1: unknown origin
	Rel   envRel
}

type envMut uint8

const (
	mutTop envMut = 1
	mutAnc envMut = 2
)

type envWhy struct {
	At   ssa.Instruction
	Via  *ssa.Function // callee, nil for a direct write
	VPar int
	VBit envMut
}

type envSum struct {
	mut map[int]envMut
	why map[int]map[envMut]envWhy
	ret []map[envOrigin]bool // per result
}

type EnvFx struct {
	w    *World
	sums map[*ssa.Function]*envSum
	envT *types.Named
	// byType: a layer looked up by its type (other than the command layer) is
	// another one than the env it was looked up from; variables are followed
	// store by store
	byType bool
}

func (w *World) EnvFx() *EnvFx {
	if w.envfx == nil {
		w.envfx = w.newEnvFx(false)
	}
	return w.envfx
}

func (w *World) newEnvFx(byType bool) *EnvFx {
	fx := &EnvFx{w: w, sums: map[*ssa.Function]*envSum{}, envT: w.Named("core/model", "Env"), byType: byType}
	var fs []*ssa.Function
	for f := range w.inMod {
		if len(f.Blocks) > 0 {
			fs = append(fs, f)
			s := &envSum{mut: map[int]envMut{}, why: map[int]map[envMut]envWhy{}}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				s.ret = append(s.ret, map[envOrigin]bool{})
			}
			fx.sums[f] = s
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			if fx.analyse(f) {
				changed = true
			}
		}
	}
	return fx
}

// isEnv: *Env or Env
func (fx *EnvFx) isEnv(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj() == fx.envT.Obj()
}

type envState struct {
	fx   *EnvFx
	f    *ssa.Function
	memo map[ssa.Value]map[envOrigin]bool
	busy map[ssa.Value]bool
}

func paramIndex(f *ssa.Function, v ssa.Value) int {
	for i, p := range f.Params {
		if p == v {
			return i
		}
	}
	for i, p := range f.FreeVars {
		if p == v {
			return len(f.Params) + i
		}
	}
	return -1
}

func addAll(dst, src map[envOrigin]bool) {
	for k := range src {
		dst[k] = true
	}
}

func climb(os map[envOrigin]bool) map[envOrigin]bool {
	out := map[envOrigin]bool{}
	for o := range os {
		// the parent of a layer on top may be the env itself
		out[envOrigin{o.Param, relLayer}] = true
	}
	return out
}

func above(os map[envOrigin]bool) map[envOrigin]bool {
	out := map[envOrigin]bool{}
	for o := range os {
		out[envOrigin{o.Param, relAbove}] = true
	}
	return out
}

// origins of an env value (or of a pointer to a variable holding one)
func (s *envState) origins(v ssa.Value) map[envOrigin]bool {
	if m, ok := s.memo[v]; ok {
		return m
	}
	if s.busy[v] {
		return nil
	}
	s.busy[v] = true
	out := map[envOrigin]bool{}
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if i := paramIndex(s.f, v); i >= 0 {
			out[envOrigin{i, relOwn}] = true
		}
	case *ssa.Phi:
		for turn := 0; turn < 4; turn++ {
			n := len(out)
			old := s.memo
			s.memo = make(map[ssa.Value]map[envOrigin]bool, len(old)+4)
			for k, m := range old {
				s.memo[k] = m
			}
			if turn > 0 {
				s.memo[v] = out
			}
			got := map[envOrigin]bool{}
			for _, e := range v.Edges {
				addAll(got, s.origins(e))
			}
			s.memo = old
			addAll(out, got)
			if turn > 0 && len(out) == n {
				break
			}
		}
		if s.fx.byType {
			// a walk up the layers, to the one looked for
			for o := range out {
				if out[envOrigin{o.Param, relLayer}] {
					delete(out, envOrigin{o.Param, relOwn})
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				if s.fx.isEnv(a.X.Type()) && fieldName(a.X.Type(), a.Field) == "parent" {
					addAll(out, climb(s.origins(a.X)))
				} else {
					out[envOrigin{-1, relOwn}] = true
				}
			case *ssa.Global:
				out[envOrigin{-1, relOwn}] = true
			default:
				if al, ok := a.(*ssa.Alloc); ok && s.fx.byType {
					if vals := lastStores(al, v); vals != nil {
						for _, x := range vals {
							addAll(out, s.origins(x))
						}
						break
					}
				}
				addAll(out, s.origins(v.X))
			}
		}
	case *ssa.Field:
		if s.fx.isEnv(v.X.Type()) && fieldName(v.X.Type(), v.Field) == "parent" {
			addAll(out, climb(s.origins(v.X)))
		} else {
			out[envOrigin{-1, relOwn}] = true
		}
	case *ssa.Alloc:
		// a variable (what is stored in it) or a fresh env (what its parent field holds)
		s.refs(v, out)
	case *ssa.Call:
		addAll(out, s.callResult(&v.Call, 0))
		s.refs(v, out)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			addAll(out, s.callResult(&c.Call, v.Index))
		} else {
			out[envOrigin{-1, relOwn}] = true
		}
	case *ssa.ChangeType:
		addAll(out, s.origins(v.X))
	case *ssa.MakeInterface:
		addAll(out, s.origins(v.X))
	case *ssa.TypeAssert:
		addAll(out, s.origins(v.X))
	case *ssa.Const:
	default:
		out[envOrigin{-1, relOwn}] = true
	}
	delete(s.busy, v)
	s.memo[v] = out
	return out
}

// what is stored into a variable, or as the parent of a fresh env
func (s *envState) refs(v ssa.Value, out map[envOrigin]bool) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == v {
				addAll(out, s.origins(u.Val))
			}
		case *ssa.FieldAddr:
			if s.fx.isEnv(u.X.Type()) && fieldName(u.X.Type(), u.Field) == "parent" && u.X == v {
				for _, uu := range *u.Referrers() {
					if st, ok := uu.(*ssa.Store); ok && st.Addr == u {
						addAll(out, above(s.origins(st.Val)))
					}
				}
			}
		case *ssa.MakeClosure:
			// the closure may assign the variable
			if _, isVar := v.(*ssa.Alloc); !isVar {
				continue
			}
			g := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b != v {
					continue
				}
				fv := g.FreeVars[i]
				for _, uu := range *fv.Referrers() {
					if st, ok := uu.(*ssa.Store); ok && st.Addr == fv {
						if k, ok := st.Val.(*ssa.Const); !ok || !k.IsNil() {
							out[envOrigin{-1, relOwn}] = true
						}
					}
				}
			}
		}
	}
}

// combine: origin o of an argument, relation r of the callee's use of it
func combineRel(o envOrigin, r envRel) envOrigin {
	switch {
	case r == relOwn:
		return o
	case r == relLayer:
		if o.Rel == relAbove {
			return envOrigin{o.Param, relLayer}
		}
		return envOrigin{o.Param, relLayer}
	default: // above
		return envOrigin{o.Param, relAbove}
	}
}

func (s *envState) callResult(c *ssa.CallCommon, idx int) map[envOrigin]bool {
	out := map[envOrigin]bool{}
	if s.fx.byType && s.fx.w.callsMethod(c, "core/model", "Env", "GetLayer") {
		if k, ok := c.Args[1].(*ssa.Const); !ok || constantStringVal(k) != "command" {
			return climb(s.origins(c.Args[0]))
		}
	}
	if s.fx.byType && s.fx.w.callsMethod(c, "core/model", "Env", "GetOneOfLayers") {
		return climb(s.origins(c.Args[0]))
	}
	gs := s.fx.w.Callees(c)
	if len(gs) == 0 {
		out[envOrigin{-1, relOwn}] = true
		return out
	}
	for _, g := range gs {
		sum := s.fx.sums[g]
		if sum == nil || idx >= len(sum.ret) {
			out[envOrigin{-1, relOwn}] = true
			continue
		}
		for o := range sum.ret[idx] {
			if o.Param < 0 {
				out[o] = true
				continue
			}
			a := argOf(c, g, o.Param)
			if a == nil {
				out[envOrigin{-1, relOwn}] = true
				continue
			}
			for ao := range s.origins(a) {
				out[combineRel(ao, o.Rel)] = true
			}
		}
	}
	return out
}

// argOf: the value bound to parameter i (or captured variable) of callee g at the call.
func argOf(c *ssa.CallCommon, g *ssa.Function, i int) ssa.Value {
	n := len(g.Params)
	if i >= n {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && mc.Fn == g && i-n < len(mc.Bindings) {
			return mc.Bindings[i-n]
		}
		return nil
	}
	if c.IsInvoke() {
		if i == 0 {
			return c.Value
		}
		i--
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

func (fx *EnvFx) analyse(f *ssa.Function) bool {
	s := &envState{fx: fx, f: f, memo: map[ssa.Value]map[envOrigin]bool{}, busy: map[ssa.Value]bool{}}
	sum := fx.sums[f]
	changed := false
	mark := func(o envOrigin, bit envMut, why envWhy) {
		if o.Param < 0 {
			return
		}
		var bits envMut
		switch o.Rel {
		case relOwn:
			bits = bit
		case relLayer:
			if bit&mutTop != 0 {
				bits |= mutTop | mutAnc
			}
			if bit&mutAnc != 0 {
				bits |= mutAnc
			}
		case relAbove:
			if bit&mutAnc != 0 {
				bits |= mutTop | mutAnc
			}
		}
		for _, b := range []envMut{mutTop, mutAnc} {
			if bits&b != 0 && sum.mut[o.Param]&b == 0 {
				sum.mut[o.Param] |= b
				if sum.why[o.Param] == nil {
					sum.why[o.Param] = map[envMut]envWhy{}
				}
				sum.why[o.Param][b] = why
				changed = true
			}
		}
	}
	direct := func(x ssa.Value, at ssa.Instruction) {
		for o := range s.origins(x) {
			mark(o, mutTop, envWhy{At: at})
		}
	}
	pairsOf := func(m ssa.Value) ssa.Value {
		switch m := m.(type) {
		case *ssa.UnOp:
			if fa, ok := m.X.(*ssa.FieldAddr); ok && fx.isEnv(fa.X.Type()) {
				return fa.X
			}
		case *ssa.Field:
			if fx.isEnv(m.X.Type()) {
				return m.X
			}
		}
		return nil
	}
	forEachInstr(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			if x := pairsOf(in.Map); x != nil {
				direct(x, in)
			}
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fx.isEnv(fa.X.Type()) {
				if al, fresh := fa.X.(*ssa.Alloc); fresh {
					// the own copy of a value receiver, or an env under construction
					_ = al
					return
				}
				if fieldName(fa.X.Type(), fa.Field) == "parent" {
					if c, ok := fa.X.(*ssa.Call); ok && len(s.callResult(&c.Call, 0)) == 0 {
						return // fresh from a constructor
					}
				}
				direct(fa.X, in)
			}
		case *ssa.MakeClosure:
			g := in.Fn.(*ssa.Function)
			if gs := fx.sums[g]; gs != nil {
				for i, b := range in.Bindings {
					if bits := gs.mut[len(g.Params)+i]; bits != 0 {
						for o := range s.origins(b) {
							for _, bit := range []envMut{mutTop, mutAnc} {
								if bits&bit != 0 {
									mark(o, bit, envWhy{At: in, Via: g, VPar: len(g.Params) + i, VBit: bit})
								}
							}
						}
					}
				}
			}
		case *ssa.Return:
			for i, r := range in.Results {
				if !fx.isEnv(r.Type()) {
					continue
				}
				for o := range s.origins(r) {
					if !sum.ret[i][o] {
						sum.ret[i][o] = true
						changed = true
					}
				}
			}
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := c.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if (b.Name() == "delete" || b.Name() == "clear") && len(cc.Args) > 0 {
				if x := pairsOf(cc.Args[0]); x != nil {
					direct(x, in)
				}
			}
			return
		}
		for _, g := range fx.w.Callees(cc) {
			gs := fx.sums[g]
			if gs == nil {
				continue
			}
			for p, bits := range gs.mut {
				if p >= len(g.Params) {
					continue // captured variables are charged where the closure is made
				}
				a := argOf(cc, g, p)
				if a == nil {
					continue
				}
				for o := range s.origins(a) {
					for _, bit := range []envMut{mutTop, mutAnc} {
						if bits&bit != 0 {
							mark(o, bit, envWhy{At: in, Via: g, VPar: p, VBit: bit})
						}
					}
				}
			}
		}
	})
	return changed
}

// Mutates: may f change the env bound to parameter p (own layer or below)?
func (fx *EnvFx) Mutates(f *ssa.Function, p int) envMut {
	if s := fx.sums[f]; s != nil {
		return s.mut[p]
	}
	return 0
}

// Why gives the call chain to the write.
func (fx *EnvFx) Why(f *ssa.Function, p int, bit envMut) []string {
	var out []string
	for n := 0; n < 30 && f != nil; n++ {
		s := fx.sums[f]
		wy, ok := s.why[p][bit]
		if !ok {
			break
		}
		if wy.Via == nil {
			out = append(out, fmt.Sprintf("%s: writes at %s", fx.w.FuncKey(f), fx.w.InstrPos(wy.At)))
			break
		}
		out = append(out, fmt.Sprintf("%s: at %s calls/creates %s", fx.w.FuncKey(f), fx.w.InstrPos(wy.At), fx.w.FuncKey(wy.Via)))
		f, p, bit = wy.Via, wy.VPar, wy.VBit
	}
	return out
}

func (fx *EnvFx) envParams(f *ssa.Function) []int {
	var out []int
	for i, p := range f.Params {
		if fx.isEnv(p.Type()) {
			out = append(out, i)
		}
	}
	return out
}

func dumpEnvFx(w *World) {
	fx := w.EnvFx()
	for _, f := range w.Funcs {
		for _, p := range fx.envParams(f) {
			if m := fx.Mutates(f, p); m != 0 {
				fmt.Printf("%s %d:%d %v\n", w.FuncKey(f), p, m, fx.Why(f, p, m&-m))
			}
		}
	}
}

// lastStores: what a variable may hold at an instruction, if the stores that
// are overwritten on every way there can be told; nil: all of them.
func lastStores(al *ssa.Alloc, at ssa.Instruction) []ssa.Value {
	if al.Referrers() == nil {
		return nil
	}
	var ss []*ssa.Store
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != ssa.Value(al) {
				return nil
			}
			ss = append(ss, u)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := u.Fn.(*ssa.Function)
			for i, b := range u.Bindings {
				if b != ssa.Value(al) {
					continue
				}
				for _, w := range *g.FreeVars[i].Referrers() {
					if _, ok := w.(*ssa.UnOp); !ok {
						return nil
					}
				}
			}
		default:
			return nil
		}
	}
	var out []ssa.Value
	for _, a := range ss {
		killed := false
		for _, b := range ss {
			if a != b && before(a, b) && before(b, at) && !inLoopWith(a, b) {
				killed = true
			}
		}
		if !killed {
			out = append(out, a.Val)
		}
	}
	return out
}

// before: a is executed before b on every way to b
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// inLoopWith: a may be executed again after b
func inLoopWith(a, b ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == a.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}
