package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type postIfKey struct {
	g   *ssa.Function
	i   int
	val bool
}

// postCands: what might hold of the results (over "r<i>", "len(r<i>)" and the
// parameters).
func postCands(g *ssa.Function) []lin {
	res := g.Signature.Results()
	var cands []lin
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		rs := fmt.Sprintf("r%d", i)
		switch {
		case isInt(t):
			cands = append(cands, linS(rs), linS(rs).plus(1), linS(rs).plus(-1))
		case isSeq(t):
			rs = "len(" + rs + ")"
			cands = append(cands, linS(rs).plus(-1))
		default:
			continue
		}
		for _, p := range g.Params {
			var ps string
			switch {
			case isInt(p.Type()):
				ps = "p:" + p.Name()
			case isSeq(p.Type()):
				ps = "len(p:" + p.Name() + ")"
			default:
				continue
			}
			cands = append(cands, linS(ps).add(linS(rs), -1), linS(rs).add(linS(ps), -1), linS(ps).add(linS(rs), -1).plus(-1))
		}
		for j := 0; j < i; j++ {
			tj := res.At(j).Type()
			qs := fmt.Sprintf("r%d", j)
			if isSeq(tj) {
				qs = "len(" + qs + ")"
			} else if !isInt(tj) {
				continue
			}
			cands = append(cands, linS(qs).add(linS(rs), -1), linS(rs).add(linS(qs), -1))
		}
	}
	// parameters, for functions which tell something about them
	for _, p := range g.Params {
		switch {
		case isInt(p.Type()):
			cands = append(cands, linS("p:"+p.Name()), linS("p:"+p.Name()).plus(-1))
		case isSeq(p.Type()):
			for n := int64(1); n < 5; n++ {
				cands = append(cands, linS("len(p:"+p.Name()+")").plus(-n))
			}
		}
		for _, q := range g.Params {
			if q != p && isSeq(p.Type()) && isSeq(q.Type()) {
				l := linS("len(p:"+p.Name()+")").add(linS("len(p:"+q.Name()+")"), -1)
				cands = append(cands, l, l.plus(-1))
			}
			if isInt(p.Type()) && isSeq(q.Type()) {
				l := linS("len(p:"+q.Name()+")").add(linS("p:"+p.Name()), -1)
				cands = append(cands, l, l.plus(-1))
			}
		}
	}
	return cands
}

// postIf: what holds of the results of g when result i is val (true or nil).
func (b *bounds) postIf(g *ssa.Function, i int, val bool) []lin {
	k := postIfKey{g, i, val}
	if l, ok := b.ifs[k]; ok {
		return l
	}
	b.ifs[k] = nil
	res := g.Signature.Results()
	if len(g.Blocks) == 0 || len(g.Blocks) > 400 {
		return nil
	}
	any := false
	for j := 0; j < res.Len(); j++ {
		any = any || isInt(res.At(j).Type()) || isSeq(res.At(j).Type())
	}
	for _, p := range g.Params {
		any = any || isInt(p.Type()) || isSeq(p.Type())
	}
	if !any {
		return nil
	}
	x := b.fn(g)
	type way struct {
		facts []bFact
		vals  []ssa.Value
		phi   func(lin) lin
	}
	var ways []way
	cut := false
	forEachInstr(g, func(in ssa.Instruction) {
		r, ok := in.(*ssa.Return)
		if !ok || i >= len(r.Results) {
			return
		}
		blk := r.Block()
		add := func(v ssa.Value, facts []bFact, vals []ssa.Value, phi func(lin) lin) {
			if c, ok := v.(*ssa.Const); ok {
				is := c.Value == nil
				if c.Value != nil {
					is = c.Value.String() == "true"
				}
				if is != val {
					return
				}
			} else if isBool(v.Type()) {
				x.condFacts(v, val, &facts)
			} else if mi, ok := v.(*ssa.MakeInterface); ok && mi != nil && val {
				return // not nil
			}
			ways = append(ways, way{facts, vals, phi})
		}
		hasPhi := false
		for _, v := range r.Results {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == blk {
				hasPhi = true
			}
		}
		loop := false
		for _, p := range blk.Preds {
			loop = loop || blk.Dominates(p)
		}
		if hasPhi && !loop {
			for pi, p := range blk.Preds {
				vals := append([]ssa.Value(nil), r.Results...)
				for n, v := range vals {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == blk {
						vals[n] = ph.Edges[pi]
					}
				}
				pi := pi
				add(vals[i], append(x.factsAt(p, nil), x.edgeFacts(p, blk)...), vals, func(l lin) lin { l, _ = x.onEdge(l, blk, pi); return l })
			}
			return
		}
		add(r.Results[i], x.factsAt(blk, r), r.Results, func(l lin) lin { return l })
	})
	if cut || len(ways) == 0 {
		return nil
	}
	var out []lin
	for _, c := range postCands(g) {
		ok := true
		for _, wy := range ways {
			gl := linC(c.c)
			for s, k := range c.t {
				if strings.Contains(s, "p:") {
					gl = gl.add(linS(s), k)
					continue
				}
				var n int
				isLen := strings.HasPrefix(s, "len(")
				fmt.Sscanf(strings.TrimSuffix(strings.TrimPrefix(s, "len("), ")"), "r%d", &n)
				if isLen {
					gl = gl.add(x.lenOf(wy.vals[n]), k)
				} else {
					gl = gl.add(x.lin(wy.vals[n]), k)
				}
			}
			if !x.implied(gl, wy.facts) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, c)
		}
	}
	b.ifs[k] = out
	return out
}

// configured: a separator ticat is configured with (a field, a constant of the
// env, a captured or passed one of these): these are not empty.
func (b *bounds) configured(v ssa.Value) bool { return b.configured1(v, map[ssa.Value]bool{}) }

func (b *bounds) configured1(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		cs, ok := constString(v)
		return ok && cs != ""
	case *ssa.BinOp:
		return v.Op == token.ADD && (b.configured1(v.X, seen) || b.configured1(v.Y, seen))
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !b.configured1(e, seen) {
				return false
			}
		}
		return len(v.Edges) > 0
	case *ssa.Field:
		return isSepField(v.X.Type(), v.Field)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			return isSepField(deref(a.X.Type()), a.Field)
		case *ssa.FreeVar, *ssa.Alloc:
			al, ok := a.(*ssa.Alloc)
			if fv, isFv := a.(*ssa.FreeVar); isFv {
				al, _ = captured(fv)
				ok = al != nil
			}
			if !ok {
				return false
			}
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					n++
					if !b.configured1(st.Val, seen) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Call:
		o := calleeObj(&v.Call)
		if o == nil || !strings.HasPrefix(o.Name(), "Get") || len(v.Call.Args) < 2 {
			return false
		}
		cs, ok := constString(v.Call.Args[1])
		return ok && strings.HasPrefix(cs, "strs.")
	case *ssa.Parameter:
		f := v.Parent()
		us, all := b.uses(f)
		if !all || len(us) == 0 {
			return false
		}
		for i, p := range f.Params {
			if p != v {
				continue
			}
			for _, u := range us {
				if i >= len(u.Common().Args) || !b.configured1(u.Common().Args[i], seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// isSepField: a text field of a type which holds what ticat is configured with:
// one that only constructors fill.
func isSepField(t types.Type, i int) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return false
	}
	nm := strings.ToLower(st.Field(i).Name())
	return strings.HasSuffix(nm, "sep") || strings.HasSuffix(nm, "mark") || strings.HasSuffix(nm, "left") || strings.HasSuffix(nm, "right") || strings.HasSuffix(nm, "seps")
}

// uses: the calls of a function, and whether these are all its uses.
func (b *bounds) uses(f *ssa.Function) ([]ssa.CallInstruction, bool) {
	type use struct {
		calls map[*ssa.Function][]ssa.CallInstruction
		esc   map[*ssa.Function]bool
	}
	u := b.w.Memo("boundsUses", func() interface{} {
		u := &use{map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}}
		ifaces := map[string]bool{} // types converted to interfaces
		invoked := map[string]bool{}
		for _, f := range b.w.Funcs {
			forEachInstr(f, func(in ssa.Instruction) {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						invoked[cc.Method.Name()] = true
					} else {
						callee = cc.Value
						for _, g := range calleesOf(cc) {
							u.calls[g] = append(u.calls[g], c)
						}
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					ifaces[types.TypeString(deref(mi.X.Type()), nil)] = true
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if mc, ok := in.(*ssa.MakeClosure); ok {
							if closureEscapes(mc, 0) {
								u.esc[g] = true
							}
							continue
						}
						u.esc[g] = true
					}
				}
			})
		}
		for _, f := range b.w.Funcs {
			if rv := f.Signature.Recv(); rv != nil && (invoked[f.Name()] || ifaces[types.TypeString(deref(rv.Type()), nil)] && ifaceName[f.Name()]) {
				u.esc[f] = true
			}
		}
		return u
	}).(*use)
	return u.calls[f], !u.esc[f]
}

var ifaceName = map[string]bool{"Len": true, "Less": true, "Swap": true, "String": true, "Error": true, "Write": true, "Read": true,
	"Unwrap": true, "Is": true, "As": true, "Format": true, "GoString": true, "MarshalJSON": true, "UnmarshalJSON": true, "Close": true}

// closureEscapes: whether the closure is used otherwise than by calling it
func closureEscapes(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if r.Common().Value != v {
				return true
			}
			for _, a := range r.Common().Args {
				if a == v {
					return true
				}
			}
		case *ssa.Store:
			if r.Val == v {
				al, ok := r.Addr.(*ssa.Alloc)
				if !ok || cellEscapes(al, depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func cellEscapes(a ssa.Value, depth int) bool {
	if depth > 4 {
		return true
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != a {
				return true
			}
		case *ssa.UnOp:
			if closureEscapes(r, depth+1) {
				return true
			}
		case *ssa.MakeClosure:
			for i, bd := range r.Bindings {
				if bd == a && cellEscapes(r.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// ensurePre finds what holds of the parameters of f at all its calls.
func (b *bounds) ensurePre(f *ssa.Function, depth int) bool {
	if b.preB[f] {
		return len(b.pres[f]) > 0
	}
	b.preB[f] = true
	us, all := b.uses(f)
	if !all || len(us) == 0 || len(us) > 60 {
		return false
	}
	var cands []lin
	for _, p := range f.Params {
		ps := "p:" + p.Name()
		if isSeq(p.Type()) {
			cands = append(cands, linS("len("+ps+")").plus(-1), linS("len("+ps+")").plus(-2))
			for _, q := range f.Params {
				if q != p && isSeq(q.Type()) {
					cands = append(cands, linS("len("+ps+")").add(linS("len(p:"+q.Name()+")"), -1))
				}
			}
		}
		if isInt(p.Type()) {
			cands = append(cands, linS(ps), linS(ps).plus(-1))
			for _, q := range f.Params {
				switch {
				case q == p:
				case isInt(q.Type()):
					cands = append(cands, linS(ps).add(linS("p:"+q.Name()), -1), linS(ps).add(linS("p:"+q.Name()), -1).plus(-1))
				case isSeq(q.Type()):
					l := linS("len(p:"+q.Name()+")").add(linS(ps), -1)
					cands = append(cands, l, l.plus(-1))
				}
			}
		}
	}
	for _, u := range us {
		g := u.Parent()
		if g == f {
			return false
		}
		x := b.fn(g)
		tried := false
		var keep []lin
		for _, c := range cands {
			ok := x.holdsAtCall(c, f, u)
			if !ok && depth > 0 && !tried {
				tried = true
				if b.ensurePre(g, depth-1) {
					x = b.fn(g)
					ok = x.holdsAtCall(c, f, u)
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		cands = keep
		if len(cands) == 0 {
			return false
		}
	}
	b.pres[f] = cands
	delete(b.fns, f)
	return true
}

func (x *bfn) holdsAtCall(c lin, f *ssa.Function, u ssa.CallInstruction) bool {
	gl := linC(c.c)
	for s, k := range c.t {
		e, ok := x.atCall(s, f, nil, u.Common())
		if !ok {
			return false
		}
		gl = gl.add(e, k)
	}
	return x.prove(gl, u.Block(), u)
}

// proveObl: at its place, or with what the callers say of the parameters.
func (b *bounds) proveObl(f *ssa.Function, o bObl) bool {
	if sortIndex(b.w, f, o.In) {
		return true
	}
	x := b.fn(f)
	if x.prove(o.Goal, o.In.Block(), o.In) {
		return true
	}
	if !b.ensurePre(f, 3) {
		return false
	}
	x = b.fn(f)
	for _, p := range x.obligations() {
		if p.In == o.In && p.What == o.What {
			if !x.prove(p.Goal, p.In.Block(), p.In) {
				return false
			}
		}
	}
	return true
}

// live: functions that are not closures of code that was cut out
func (b *bounds) made(f *ssa.Function) bool {
	if f.Parent() == nil {
		return true
	}
	m := b.w.Memo("boundsMade", func() interface{} {
		m := map[*ssa.Function]bool{}
		for _, f := range b.w.Funcs {
			forEachInstr(f, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							m[g] = true
						}
					}
				}
			})
		}
		return m
	}).(map[*ssa.Function]bool)
	return m[f]
}

// textLike: a text, or a list of texts, or bytes.
func textLike(t types.Type) bool {
	t = deref(t)
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0
	case *types.Slice:
		return textElem(t.Elem())
	case *types.Array:
		return textElem(t.Elem())
	}
	return false
}

func textElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Info()&types.IsString != 0 || b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

var boundsOther = os.Getenv("OTHER") != ""

func dumpBounds(w *World, filter string) {
	b := w.bounds()
	fs := append([]*ssa.Function(nil), w.Funcs...)
	sort.Slice(fs, func(i, j int) bool { return w.FuncKey(fs[i]) < w.FuncKey(fs[j]) })
	n, bad := 0, 0
	for _, f := range fs {
		if !w.InModule(f) || !strings.Contains(w.FuncKey(f), filter) || !b.made(f) {
			continue
		}
		for _, o := range b.fn(f).obligations() {
			if textLike(seqOf(o.In).Type()) == boundsOther {
				continue
			}
			n++
			if !b.proveObl(f, o) {
				bad++
				fmt.Printf("%s %s: %s: %s\n", w.InstrPos(o.In), w.FuncKey(f), o.What, o.Goal)
			}
		}
	}
	fmt.Println("obligations", n, "not proved", bad, "fm", b.FM)
}

func seqOf(in ssa.Instruction) ssa.Value {
	switch v := in.(type) {
	case *ssa.IndexAddr:
		return v.X
	case *ssa.Index:
		return v.X
	case *ssa.Lookup:
		return v.X
	case *ssa.Slice:
		return v.X
	}
	return nil
}

// sortIndex: an element of the list being sorted, by an index the sort gave
func sortIndex(w *World, f *ssa.Function, in ssa.Instruction) bool {
	ia, ok := in.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	p, ok := ia.Index.(*ssa.Parameter)
	if !ok {
		return false
	}
	if f.Parent() == nil {
		if len(f.Params) != 3 || (f.Name() != "Less" && f.Name() != "Swap") || p == f.Params[0] || len(w.callerFns()[f]) != 0 {
			return false
		}
		return ia.X == ssa.Value(f.Params[0])
	}
	u, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	fv, ok := u.X.(*ssa.FreeVar)
	if !ok {
		return false
	}
	al, mc := captured(fv)
	if al == nil || mc == nil || mc.Referrers() == nil {
		return false
	}
	n := 0
	for _, r := range *mc.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		c, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		callee := c.Call.StaticCallee()
		if callee == nil || libPkg(callee) != "sort" || (callee.Name() != "Slice" && callee.Name() != "SliceStable") {
			return false
		}
		v := c.Call.Args[0]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		l, ok := v.(*ssa.UnOp)
		if !ok || l.X != ssa.Value(al) {
			return false
		}
		n++
	}
	// the function of the sort does not change the list variable itself
	for _, r := range *fv.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(fv) {
			return false
		}
	}
	return n > 0
}
