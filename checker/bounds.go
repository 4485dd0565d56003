package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Index and slice bounds: a relational analysis over linear inequalities between
// integers and lengths. Facts come from the branches that dominate a point, from
// what the instructions before it imply, from invariants of loops (found by
// dropping candidates that are not inductive) and from what callees return; an
// obligation which only talks about parameters is handed to the callers.

// ---- linear expressions ----

type lin struct {
	c int64
	t map[string]int64
}

func linC(c int64) lin { return lin{c: c} }
func linS(s string) lin {
	return lin{t: map[string]int64{s: 1}}
}

func (a lin) add(b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, t: map[string]int64{}}
	for s, x := range a.t {
		r.t[s] = x
	}
	for s, x := range b.t {
		r.t[s] += k * x
		if r.t[s] == 0 {
			delete(r.t, s)
		}
	}
	return r
}

func (a lin) plus(c int64) lin { return lin{c: a.c + c, t: a.t} }

func (a lin) isConst() bool { return len(a.t) == 0 }

func (a lin) String() string {
	var ks []string
	for s := range a.t {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	out := ""
	for _, s := range ks {
		out += fmt.Sprintf("%+d*%s ", a.t[s], s)
	}
	return out + fmt.Sprintf("%+d", a.c)
}

// subst replaces a symbol by an expression.
func (a lin) subst(s string, e lin) lin {
	k, ok := a.t[s]
	if !ok {
		return a
	}
	r := lin{c: a.c, t: map[string]int64{}}
	for x, y := range a.t {
		if x != s {
			r.t[x] = y
		}
	}
	return r.add(e, k)
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides by the common divisor (integers).
func (a lin) tighten() lin {
	var g int64
	for _, x := range a.t {
		g = gcd64(g, x)
	}
	if g <= 1 {
		return a
	}
	r := lin{c: floorDiv(a.c, g), t: map[string]int64{}}
	for s, x := range a.t {
		r.t[s] = x / g
	}
	return r
}

// infeasible: the conjunction of cs (each >= 0) has no solution (Fourier-Motzkin).
func infeasible(cs []lin) bool {
	seen := map[string]bool{}
	var work []lin
	add := func(l lin) bool { // true: contradiction
		l = l.tighten()
		if l.isConst() {
			return l.c < 0
		}
		k := l.String()
		if seen[k] {
			return false
		}
		seen[k] = true
		work = append(work, l)
		return false
	}
	for _, l := range cs {
		if add(l) {
			return true
		}
	}
	for {
		// the symbol which is cheapest to eliminate
		pos, neg := map[string]int{}, map[string]int{}
		for _, l := range work {
			for s, x := range l.t {
				if x > 0 {
					pos[s]++
				} else {
					neg[s]++
				}
			}
		}
		best, bc := "", 1<<30
		for s := range pos {
			c := pos[s]*neg[s] - pos[s] - neg[s]
			if c < bc || c == bc && s < best {
				best, bc = s, c
			}
		}
		for s := range neg {
			if pos[s] == 0 {
				c := -neg[s]
				if c < bc || c == bc && s < best {
					best, bc = s, c
				}
			}
		}
		if best == "" {
			return false
		}
		var ps, ns, rest []lin
		for _, l := range work {
			switch x := l.t[best]; {
			case x > 0:
				ps = append(ps, l)
			case x < 0:
				ns = append(ns, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(ps)*len(ns)+len(rest) > 900 {
			return false // too many: not decided
		}
		work = rest
		seen = map[string]bool{}
		for _, l := range rest {
			seen[l.String()] = true
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.t[best], -n.t[best]
				g := gcd64(a, b)
				r := lin{t: map[string]int64{}}
				r = r.add(p, b/g).add(n, a/g)
				delete(r.t, best)
				if add(r) {
					return true
				}
			}
		}
	}
}

// ---- one function ----

type bSym struct {
	v     ssa.Value // the value, or the sequence whose length it is
	isLen bool
}

type bfn struct {
	b     *bounds
	w     *World
	f     *ssa.Function
	keys  map[ssa.Value]string
	n     int
	syms  map[string]bSym
	loads map[ssa.Value]string // loads and their value keys
	doms  map[*ssa.BasicBlock]map[string]string
	inv   map[*ssa.BasicBlock][]lin
	phis  map[string]*ssa.Phi // symbols of phis
	lins  map[ssa.Value]lin
	pre   []lin // what is known of the parameters
	busy  map[string]bool
	facts map[*ssa.BasicBlock][]bFact
}

type bFact struct {
	at  ssa.Instruction // holds after it (nil: from the start of the block)
	ge  lin             // ge >= 0
	ne  bool            // ge != 0 instead
	seq string          // the byte at ge of this text is ch
	ch  byte
	phi *ssa.Phi // the truth value of phi is val
	val bool
	pre []lin // only if these are >= 0
}

type bounds struct {
	w      *World
	fns    map[*ssa.Function]*bfn
	kills  map[*ssa.Function]map[string]bool
	posts  map[*ssa.Function][]lin // over "r<i>", "len(r<i>)", and parameter keys
	ifs    map[postIfKey][]lin
	pres   map[*ssa.Function][]lin
	preB   map[*ssa.Function]bool
	postB  map[*ssa.Function]bool
	const1 map[string]bool
	par    [][2]string
	FM     int
}

func (w *World) bounds() *bounds {
	return w.Memo("bounds", func() interface{} {
		b := &bounds{w: w, fns: map[*ssa.Function]*bfn{}, ifs: map[postIfKey][]lin{}, pres: map[*ssa.Function][]lin{}, preB: map[*ssa.Function]bool{}, posts: map[*ssa.Function][]lin{}, postB: map[*ssa.Function]bool{}}
		b.initKills()
		return b
	}).(*bounds)
}

// classes of memory: a field of a struct type, the elements of slices of a type,
// local variables and whatever a pointer of a type points to.
func addrClass(v ssa.Value) (class, pt string) {
	p, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return "*", "*"
	}
	pt = types.TypeString(p.Elem(), nil)
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("f:%s.%d", types.TypeString(deref(v.X.Type()), nil), v.Field), pt
	case *ssa.IndexAddr:
		return "e:" + pt, pt
	case *ssa.Alloc:
		return "a:", pt
	case *ssa.Global:
		return "g:" + v.String(), pt
	}
	return "p:" + pt, pt
}

func (b *bounds) initKills() {
	w := b.w
	b.kills = map[*ssa.Function]map[string]bool{}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range w.inMod {
		if len(f.Blocks) == 0 {
			continue
		}
		m := map[string]bool{}
		b.kills[f] = m
		calls[f] = map[*ssa.Function]bool{}
		forEachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				c, pt := addrClass(in.Addr)
				m[c+"|"+pt] = true
			case ssa.CallInstruction:
				c := in.Common()
				for _, g := range w.Callees(c) {
					calls[f][g] = true
				}
				for k := range b.extKills(c) {
					m[k] = true
				}
			case *ssa.MakeClosure:
				calls[f][in.Fn.(*ssa.Function)] = true
			}
		})
	}
	for ch := true; ch; {
		ch = false
		for f, gs := range calls {
			for g := range gs {
				for k := range b.kills[g] {
					if !b.kills[f][k] {
						b.kills[f][k] = true
						ch = true
					}
				}
			}
		}
	}
}

// extKills: functions outside of the module change the elements of slices, and
// what pointers they are given point to.
func (b *bounds) extKills(c *ssa.CallCommon) map[string]bool {
	out := map[string]bool{}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if bi.Name() == "copy" {
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				pt := types.TypeString(s.Elem(), nil)
				out["e:"+pt+"|"+pt] = true
			}
		}
		return out
	}
	if g := c.StaticCallee(); g != nil && b.w.inMod[g] {
		return out
	}
	if o := calleeObj(c); o != nil && o.Pkg() != nil {
		switch o.Pkg().Path() {
		case "strings", "fmt", "strconv", "unicode", "errors", "math", "path/filepath", "path":
			return out
		}
	}
	for _, a := range c.Args {
		t := a.Type()
		if mi, ok := a.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		switch t := t.Underlying().(type) {
		case *types.Slice:
			pt := types.TypeString(t.Elem(), nil)
			out["e:"+pt+"|"+pt] = true
		case *types.Pointer:
			pt := types.TypeString(t.Elem(), nil)
			out["p:"+pt+"|"+pt] = true
			if _, ok := t.Elem().Underlying().(*types.Struct); ok {
				out["s:"+pt+"|"+pt] = true
			}
		}
	}
	return out
}

func killed(key, kill string) bool {
	// key and kill: class|pointee
	i, j := strings.LastIndex(key, "|"), strings.LastIndex(kill, "|")
	kc, kp := key[:i], key[i+1:]
	c, p := kill[:j], kill[j+1:]
	if c == "*" {
		return true
	}
	if strings.HasPrefix(c, "s:") { // a whole object
		return strings.HasPrefix(kc, "f:"+c[2:]+".")
	}
	if strings.HasPrefix(c, "p:") || strings.HasPrefix(c, "a:") || strings.HasPrefix(c, "g:") {
		if kp == p && !(strings.HasPrefix(c, "a:") && !strings.HasPrefix(kc, "p:") && kc != c) {
			return true
		}
		// a whole struct is stored
		return strings.HasPrefix(kc, "f:"+p+".")
	}
	if kc == c {
		return true
	}
	if strings.HasPrefix(kc, "p:") && kp == p {
		return true
	}
	if strings.HasPrefix(c, "e:") || strings.HasPrefix(c, "f:") {
		return strings.HasPrefix(kc, "f:"+p+".")
	}
	return false
}

func (b *bounds) fn(f *ssa.Function) *bfn {
	if x := b.fns[f]; x != nil {
		return x
	}
	x := &bfn{b: b, w: b.w, f: f, keys: map[ssa.Value]string{}, syms: map[string]bSym{}, loads: map[ssa.Value]string{},
		inv: map[*ssa.BasicBlock][]lin{}, phis: map[string]*ssa.Phi{}, lins: map[ssa.Value]lin{}, busy: map[string]bool{},
		facts: map[*ssa.BasicBlock][]bFact{}}
	b.fns[f] = x
	x.pre = b.pres[f]
	x.memory()
	x.collect()
	x.houdini()
	return x
}

func (x *bfn) fresh(v ssa.Value) string {
	x.n++
	nm := v.Name()
	if nm == "" {
		nm = "v"
	}
	return fmt.Sprintf("%s#%d", nm, x.n)
}

// key: equal keys mean equal values.
func (x *bfn) key(v ssa.Value) string {
	if k, ok := x.keys[v]; ok {
		return k
	}
	k := x.key1(v)
	x.keys[v] = k
	return k
}

func (x *bfn) key1(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "nil:" + v.Type().String()
		}
		return "c:" + v.Value.ExactString()
	case *ssa.Parameter:
		return "p:" + v.Name()
	case *ssa.FreeVar:
		return "fv:" + v.Name()
	case *ssa.Global:
		return "g:" + v.String()
	case *ssa.ChangeType:
		return x.key(v.X)
	case *ssa.Field:
		return fmt.Sprintf("F(%s,%d)", x.key(v.X), v.Field)
	case *ssa.FieldAddr:
		return fmt.Sprintf("&F(%s,%d)", x.key(v.X), v.Field)
	case *ssa.IndexAddr:
		return fmt.Sprintf("&I(%s,%s)", x.key(v.X), x.lin(v.Index).String())
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if k, ok := x.loads[v]; ok {
				return k
			}
		}
	case *ssa.Extract:
		return fmt.Sprintf("%s.%d", x.key(v.Tuple), v.Index)
	case *ssa.Call:
		if o := calleeObj(&v.Call); o != nil && o.Pkg() != nil && !v.Call.IsInvoke() {
			switch o.Pkg().Path() {
			case "strings", "strconv":
				if o.Type().(*types.Signature).Recv() == nil {
					if o.Name() == "ToLower" && isLower(v.Call.Args[0], 0) {
						return x.key(v.Call.Args[0])
					}
					var as []string
					for _, a := range v.Call.Args {
						as = append(as, x.key(a))
					}
					return o.Name() + "(" + strings.Join(as, ",") + ")"
				}
			}
		}
	case *ssa.Slice:
		lo, hi := "", ""
		if v.Low != nil {
			lo = x.lin(v.Low).String()
		}
		if v.High != nil {
			hi = x.lin(v.High).String()
		}
		if lo == "" && hi == "" {
			return x.key(v.X) + "[:]"
		}
		return fmt.Sprintf("%s[%s:%s]", x.key(v.X), lo, hi)
	case *ssa.Phi:
		k := ""
		for i, e := range v.Edges {
			if e == v {
				continue
			}
			if _, ok := e.(*ssa.Const); !ok {
				if _, ok := x.keys[e]; !ok {
					k = ""
					break
				}
			}
			ke := x.key(e)
			if i == 0 || k == "" {
				k = ke
			}
			if ke != k {
				k = ""
				break
			}
		}
		_ = k
	}
	return x.fresh(v)
}

// memory: which loads give the value of an earlier load or store.
func (x *bfn) memory() {
	type st map[string]string // address key + "@" + class|pointee -> value key
	out := map[*ssa.BasicBlock]st{}
	esc := map[*ssa.Alloc]bool{}
	forEachInstr(x.f, func(in ssa.Instruction) {
		al, ok := in.(*ssa.Alloc)
		if !ok {
			return
		}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == al {
					esc[al] = true
				}
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Slice:
			default:
				esc[al] = true
			}
		}
	})
	akey := func(a ssa.Value) string {
		c, pt := addrClass(a)
		if al, ok := a.(*ssa.Alloc); ok && !esc[al] {
			c = "a:" + x.key(al)
		}
		return x.key(a) + "@" + c + "|" + pt
	}
	ckill := func(s st, kill string) {
		for k := range s {
			i := strings.LastIndex(k, "@")
			if killed(k[i+1:], kill) {
				delete(s, k)
			}
		}
	}
	transfer := func(s st, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return
			}
			k := akey(in.X)
			if v, ok := s[k]; ok {
				x.loads[in] = v
				return
			}
			if c := x.constLoad(in); c != "" {
				x.loads[in] = c
				return
			}
			s[k] = x.key(in)
		case *ssa.Store:
			c, pt := addrClass(in.Addr)
			if al, ok := in.Addr.(*ssa.Alloc); ok && !esc[al] {
				c = "a:" + x.key(al)
			}
			ckill(s, c+"|"+pt)
			s[akey(in.Addr)] = x.key(in.Val)
		case *ssa.MakeClosure:
			for k := range x.b.kills[in.Fn.(*ssa.Function)] {
				ckill(s, k)
			}
			if x.goOrDeferOnly(in) {
				return
			}
		case ssa.CallInstruction:
			c := in.Common()
			gs := x.w.Callees(c)
			for _, g := range gs {
				for k := range x.b.kills[g] {
					ckill(s, k)
				}
			}
			if len(gs) == 0 && c.StaticCallee() == nil && !c.IsInvoke() {
				if _, ok := c.Value.(*ssa.Builtin); !ok {
					ckill(s, "*|*")
				}
			}
			for k := range x.b.extKills(c) {
				ckill(s, k)
			}
		}
	}
	// what a loop may change is forgotten at its head
	loopKills := func(h *ssa.BasicBlock) map[string]bool {
		ks := map[string]bool{}
		for b := range loopBlocks(h) {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					c, pt := addrClass(in.Addr)
					if al, ok := in.Addr.(*ssa.Alloc); ok && !esc[al] {
						c = "a:" + x.key(al)
					}
					ks[c+"|"+pt] = true
				case *ssa.MakeClosure:
					for k := range x.b.kills[in.Fn.(*ssa.Function)] {
						ks[k] = true
					}
				case ssa.CallInstruction:
					c := in.Common()
					gs := x.w.Callees(c)
					for _, g := range gs {
						for k := range x.b.kills[g] {
							ks[k] = true
						}
					}
					if len(gs) == 0 && c.StaticCallee() == nil && !c.IsInvoke() {
						if _, ok := c.Value.(*ssa.Builtin); !ok {
							ks["*|*"] = true
						}
					}
					for k := range x.b.extKills(c) {
						ks[k] = true
					}
				}
			}
		}
		return ks
	}
	for _, b := range rpo(x.f) {
		in := st{}
		first := true
		loop := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				loop = true
				continue
			}
			o := out[p]
			if o == nil {
				continue
			}
			if first {
				for k, v := range o {
					in[k] = v
				}
				first = false
				continue
			}
			for k, v := range in {
				if o[k] != v {
					delete(in, k)
				}
			}
		}
		if loop {
			for k := range loopKills(b) {
				ckill(in, k)
			}
		}
		for _, i := range b.Instrs {
			transfer(in, i)
		}
		out[b] = in
	}
}

func (x *bfn) goOrDeferOnly(mc *ssa.MakeClosure) bool { return false }

// constLoad: loads of fields which only constructors set, and of captured
// variables which are set once, always give the same value.
func (x *bfn) constLoad(u *ssa.UnOp) string {
	switch a := u.X.(type) {
	case *ssa.FieldAddr:
		if x.b.onlyBuilt(a) {
			return fmt.Sprintf("C(%s)", x.key(a))
		}
	case *ssa.FreeVar:
		if x.b.setOnce(a) {
			return "C(" + x.key(a) + ")"
		}
	}
	return ""
}

// onlyBuilt: the field is stored only in objects made by the storing function.
func (b *bounds) onlyBuilt(fa *ssa.FieldAddr) bool {
	n := namedOf(deref(fa.X.Type()))
	if n == nil {
		return false
	}
	m := b.w.Memo("boundsBuilt", func() interface{} {
		bad := map[string]bool{}
		for f := range b.w.inMod {
			forEachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if al, ok := fa.X.(*ssa.Alloc); ok && in.Block() == al.Block() {
							return
						}
						bad[fmt.Sprintf("%s.%d", types.TypeString(deref(fa.X.Type()), nil), fa.Field)] = true
						return
					}
					if n := namedOf(in.Val.Type()); n != nil {
						if _, ok := in.Addr.(*ssa.Alloc); !ok {
							bad[types.TypeString(n, nil)+".*"] = true
						}
					}
				case *ssa.FieldAddr:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Addr == in {
								continue
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							continue
						case *ssa.Slice:
							continue
						case *ssa.Call:
							// methods on the field; they are analysed with their own stores
							if len(r.Call.Args) > 0 && r.Call.Args[0] == in {
								continue
							}
						}
						bad[fmt.Sprintf("%s.%d", types.TypeString(deref(in.X.Type()), nil), in.Field)] = true
					}
				}
			})
		}
		return bad
	}).(map[string]bool)
	t := types.TypeString(deref(fa.X.Type()), nil)
	return !m[fmt.Sprintf("%s.%d", t, fa.Field)] && !m[t+".*"]
}

// setOnce: the captured variable has one store, before it is captured.
func (b *bounds) setOnce(fv *ssa.FreeVar) bool {
	al, _ := captured(fv)
	if al == nil {
		return false
	}
	var stores []*ssa.Store
	ok := true
	var see func(v ssa.Value)
	see = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					stores = append(stores, r)
				} else {
					ok = false
				}
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for i, bd := range r.Bindings {
					if bd == v {
						see(g.FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr:
				see(r.(ssa.Value))
			default:
				ok = false
			}
		}
	}
	see(al)
	return ok && len(stores) <= 1
}

// captured: the variable of the enclosing function a free variable stands for.
func captured(fv *ssa.FreeVar) (*ssa.Alloc, *ssa.MakeClosure) {
	g := fv.Parent()
	if g.Parent() == nil {
		return nil, nil
	}
	idx := -1
	for i, x := range g.FreeVars {
		if x == fv {
			idx = i
		}
	}
	var al *ssa.Alloc
	var mc *ssa.MakeClosure
	n := 0
	forEachInstr(g.Parent(), func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == g {
			n++
			mc = m
			switch b := m.Bindings[idx].(type) {
			case *ssa.Alloc:
				al = b
			case *ssa.FreeVar:
				al, _ = captured(b)
			}
		}
	})
	if n != 1 {
		return nil, nil
	}
	return al, mc
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
		out = append(out, b)
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
	}
	if f.Recover != nil {
		walk(f.Recover)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSeq(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return t.Info()&types.IsString != 0
	}
	return false
}

func (x *bfn) symFor(v ssa.Value, isLen bool) lin {
	k := x.key(v)
	if isLen {
		k = "len(" + k + ")"
	}
	if _, ok := x.syms[k]; !ok {
		x.syms[k] = bSym{v, isLen}
	}
	return linS(k)
}

// lin: an integer as a linear expression.
func (x *bfn) lin(v ssa.Value) lin {
	if l, ok := x.lins[v]; ok {
		return l
	}
	l := x.lin1(v)
	x.lins[v] = l
	return l
}

func (x *bfn) lin1(v ssa.Value) lin {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v.Value); ok && n > -(1<<40) && n < 1<<40 {
				return linC(n)
			}
		}
	case *ssa.BinOp:
		if !isInt(v.Type()) {
			break
		}
		switch v.Op {
		case token.ADD:
			return x.lin(v.X).add(x.lin(v.Y), 1)
		case token.SUB:
			return x.lin(v.X).add(x.lin(v.Y), -1)
		case token.MUL:
			a, b := x.lin(v.X), x.lin(v.Y)
			if a.isConst() {
				return linC(0).add(b, a.c)
			}
			if b.isConst() {
				return linC(0).add(a, b.c)
			}
		}
	case *ssa.Convert:
		if isInt(v.Type()) && isInt(v.X.Type()) {
			if bt := v.Type().Underlying().(*types.Basic); bt.Kind() == types.Int || bt.Kind() == types.Int64 {
				return x.lin(v.X)
			}
		}
	case *ssa.ChangeType:
		return x.lin(v.X)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isSeq(v.Call.Args[0].Type()) {
			return x.lenOf(v.Call.Args[0])
		}
	}
	return x.symFor(v, false)
}

// lenOf: the length of a string or slice.
func (x *bfn) lenOf(v ssa.Value) lin {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return linC(0)
		}
		if v.Value.Kind() == constant.String {
			return linC(int64(len(constant.StringVal(v.Value))))
		}
	case *ssa.ChangeType:
		return x.lenOf(v.X)
	case *ssa.Slice:
		var n lin
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			a, ok := p.Elem().Underlying().(*types.Array)
			if !ok {
				break
			}
			n = linC(a.Len())
		} else {
			n = x.lenOf(v.X)
		}
		if v.High != nil {
			n = x.lin(v.High)
		}
		if v.Low != nil {
			n = n.add(x.lin(v.Low), -1)
		}
		return n
	case *ssa.MakeSlice:
		return x.lin(v.Len)
	case *ssa.BinOp:
		if v.Op == token.ADD && isSeq(v.Type()) {
			return x.lenOf(v.X).add(x.lenOf(v.Y), 1)
		}
	case *ssa.Convert:
		if bytesOrString(v.Type()) && bytesOrString(v.X.Type()) {
			return x.lenOf(v.X)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			l := x.lenOf(v.Call.Args[0])
			if len(v.Call.Args) > 1 {
				l = l.add(x.lenOf(v.Call.Args[1]), 1)
			}
			return l
		}
		if o := calleeObj(&v.Call); o != nil && o.FullName() == "strings.ToLower" && isLower(v.Call.Args[0], 0) {
			return x.lenOf(v.Call.Args[0])
		}
	case *ssa.Phi:
	}
	k := x.key(v)
	// a load known to give a value whose length is known
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if src := x.valOf(k); src != nil && src != v && !x.busy[k] {
			x.busy[k] = true
			l := x.lenOf(src)
			delete(x.busy, k)
			return l
		}
	}
	return x.symFor(v, true)
}

// valOf: the value whose key it is
func (x *bfn) valOf(k string) ssa.Value {
	var best ssa.Value
	for v, kk := range x.keys {
		if kk != k {
			continue
		}
		if _, ok := v.(*ssa.UnOp); ok {
			continue
		}
		if best == nil || v.Name() < best.Name() {
			best = v
		}
	}
	return best
}

func bytesOrString(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := t.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// ---- facts ----

func (x *bfn) condFacts(cond ssa.Value, val bool, out *[]bFact) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			x.condFacts(c.X, !val, out)
			return
		}
	case *ssa.BinOp:
		if c.Op == token.EQL && val || c.Op == token.NEQ && !val {
			x.charFact(c.X, c.Y, out)
			x.charFact(c.Y, c.X, out)
		}
		if cn, ok := c.Y.(*ssa.Const); ok && cn.Value == nil && (c.Op == token.EQL || c.Op == token.NEQ) {
			x.resultFacts(c.X, (c.Op == token.EQL) == val, out)
		}
		if isInt(c.X.Type()) {
			a, b := x.lin(c.X), x.lin(c.Y)
			op := c.Op
			if !val {
				op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ,
					token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
			}
			switch op {
			case token.EQL:
				*out = append(*out, bFact{ge: a.add(b, -1)}, bFact{ge: b.add(a, -1)})
			case token.NEQ:
				*out = append(*out, bFact{ge: a.add(b, -1), ne: true})
			case token.LSS:
				*out = append(*out, bFact{ge: b.add(a, -1).plus(-1)})
			case token.LEQ:
				*out = append(*out, bFact{ge: b.add(a, -1)})
			case token.GTR:
				*out = append(*out, bFact{ge: a.add(b, -1).plus(-1)})
			case token.GEQ:
				*out = append(*out, bFact{ge: a.add(b, -1)})
			}
			return
		}
		if isSeq(c.X.Type()) && (c.Op == token.EQL || c.Op == token.NEQ) {
			eq := (c.Op == token.EQL) == val
			a, b := x.lenOf(c.X), x.lenOf(c.Y)
			if eq {
				*out = append(*out, bFact{ge: a.add(b, -1)}, bFact{ge: b.add(a, -1)})
			} else if b.isConst() && b.c == 0 && isConstVal(c.Y) || a.isConst() && a.c == 0 && isConstVal(c.X) {
				// s != "": and for slices, not nil says nothing about the length
				if bt, ok := c.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
					*out = append(*out, bFact{ge: a.add(b, 1).plus(-1)})
				}
			}
		}
	case *ssa.Phi:
		*out = append(*out, bFact{phi: c, val: val})
	case *ssa.Extract:
		x.resultFacts(c, val, out)
	case *ssa.Call:
		o := calleeObj(&c.Call)
		if o != nil && x.w.InModule(c.Call.StaticCallee()) {
			x.resultFacts(c, val, out)
		}
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != "strings" || len(c.Call.Args) != 2 || !val {
			return
		}
		s, sep := c.Call.Args[0], c.Call.Args[1]
		cs, _ := constString(sep)
		switch o.Name() {
		case "HasPrefix", "HasSuffix", "Contains":
			*out = append(*out, bFact{ge: x.lenOf(s).add(x.lenOf(sep), -1)})
			if l, ok := s.(*ssa.Call); ok && ascii(cs) {
				// what is lowered to ascii letters has at least as many bytes
				if lo := calleeObj(&l.Call); lo != nil && lo.FullName() == "strings.ToLower" {
					*out = append(*out, bFact{ge: x.lenOf(l.Call.Args[0]).plus(-int64(len(cs)))})
				}
			}
		}
		switch o.Name() {
		case "HasPrefix":
			if cs != "" {
				*out = append(*out, bFact{seq: x.key(s), ge: linC(0), ch: cs[0]})
			}
		case "HasSuffix":
			if cs != "" {
				*out = append(*out, bFact{seq: x.key(s), ge: x.lenOf(s).plus(-1), ch: cs[len(cs)-1]})
			}
		case "Contains":
			for _, nm := range []string{"Index", "LastIndex"} {
				*out = append(*out, bFact{ge: linS(nm + "(" + x.key(s) + "," + x.key(sep) + ")")})
			}
		}
	}
}

// charFact: a byte of a text is compared with a constant
func (x *bfn) charFact(a, c ssa.Value, out *[]bFact) {
	k, ok := c.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return
	}
	n, _ := constant.Int64Val(k.Value)
	var seq, ix ssa.Value
	switch v := a.(type) {
	case *ssa.Lookup:
		seq, ix = v.X, v.Index
	case *ssa.Index:
		seq, ix = v.X, v.Index
	}
	if seq == nil || n < 0 || n > 255 {
		return
	}
	if bt, ok := seq.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
		return
	}
	*out = append(*out, bFact{seq: x.key(seq), ge: x.lin(ix), ch: byte(n)})
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// isLower: the value comes from strings.ToLower (and has been cut at most)
func isLower(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		cs, ok := constString(v)
		return ok && cs == strings.ToLower(cs)
	case *ssa.Slice:
		return isLower(v.X, depth+1)
	case *ssa.Phi:
		if depth > 3 {
			return true // on a cycle; the other edges decide
		}
		for _, e := range v.Edges {
			if e != v && !isLower(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return v.Op == token.ADD && isLower(v.X, depth+1) && isLower(v.Y, depth+1)
	case *ssa.Call:
		if o := calleeObj(&v.Call); o != nil && !v.Call.IsInvoke() {
			switch o.FullName() {
			case "strings.ToLower":
				return true
			case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
				return isLower(v.Call.Args[0], depth+1)
			}
		}
	}
	return false
}

// resultFacts: what is known of the other results of a call when one of them is
// true (false), or nil (not nil).
func (x *bfn) resultFacts(v ssa.Value, val bool, out *[]bFact) {
	var c *ssa.Call
	i := 0
	switch v := v.(type) {
	case *ssa.Extract:
		c, _ = v.Tuple.(*ssa.Call)
		i = v.Index
	case *ssa.Call:
		c = v
	}
	if c == nil {
		return
	}
	g := c.Call.StaticCallee()
	if g == nil || !x.w.InModule(g) || x.f == g {
		return
	}
	for _, p := range x.b.postIf(g, i, val) {
		if l, ok := x.instantiate(p, g, c); ok {
			*out = append(*out, bFact{ge: l})
		}
	}
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// define: what a value implies by how it is computed.
func (x *bfn) define(in ssa.Instruction, out *[]bFact) {
	ge := func(l lin) { *out = append(*out, bFact{at: in, ge: l}) }
	cond := func(pre, l lin) { *out = append(*out, bFact{at: in, ge: l, pre: []lin{pre}}) }
	switch v := in.(type) {
	case *ssa.Slice:
		var n lin
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n = linC(a.Len())
			}
		} else {
			n = x.lenOf(v.X)
		}
		lo, hi := linC(0), n
		if v.Low != nil {
			lo = x.lin(v.Low)
		}
		if v.High != nil {
			hi = x.lin(v.High)
			if _, ok := v.X.Type().Underlying().(*types.Slice); !ok {
				ge(n.add(hi, -1))
			}
		}
		ge(lo)
		ge(hi.add(lo, -1))
	case *ssa.IndexAddr:
		if isSeq(v.X.Type()) {
			i := x.lin(v.Index)
			ge(i)
			ge(x.lenOf(v.X).add(i, -1).plus(-1))
		}
	case *ssa.Lookup:
		if isSeq(v.X.Type()) {
			i := x.lin(v.Index)
			ge(i)
			ge(x.lenOf(v.X).add(i, -1).plus(-1))
		}
	case *ssa.Index:
		if isSeq(v.X.Type()) {
			i := x.lin(v.Index)
			ge(i)
			ge(x.lenOf(v.X).add(i, -1).plus(-1))
		}
	case *ssa.BinOp:
		if !isInt(v.Type()) {
			return
		}
		r := linS(x.key(v))
		switch v.Op {
		case token.QUO:
			b := x.lin(v.Y)
			a := x.lin(v.X)
			if b.isConst() && b.c > 0 { // truncated: for a >= 0, b*r <= a < b*r+b
				cond(a, a.add(r, -b.c))
				cond(a, r.add(a, 0).add(r, b.c-1).add(a, -1).plus(b.c-1))
				cond(a, r)
			}
		case token.REM:
			b, a := x.lin(v.Y), x.lin(v.X)
			cond(a, r)
			*out = append(*out, bFact{at: in, ge: b.add(r, -1).plus(-1), pre: []lin{a, b.plus(-1)}})
			cond(a, a.add(r, -1))
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && g.String() == "os.Args" {
			ge(x.lenOf(v).plus(-1))
		}
		if isSeq(v.Type()) && bytesOrString(v.Type()) && x.b.configured(v) {
			ge(x.lenOf(v).plus(-1))
		}
	case *ssa.Field:
		if isSeq(v.Type()) && bytesOrString(v.Type()) && x.b.configured(v) {
			ge(x.lenOf(v).plus(-1))
		}
	case *ssa.Call:
		x.defineCall(v, out)
	case *ssa.Extract:
		if n, ok := v.Tuple.(*ssa.Next); ok && n.IsString {
			if rg, ok := n.Iter.(*ssa.Range); ok && v.Index == 1 {
				r := x.lin(v)
				ge(r)
				// while the loop goes on
				for _, e := range *n.Referrers() {
					if ok0, isE := e.(*ssa.Extract); isE && ok0.Index == 0 {
						x.rangeOK(ok0, r, x.lenOf(rg.X))
					}
				}
			}
		}
		if c, ok := v.Tuple.(*ssa.Call); ok {
			x.defineCall(c, out)
		}
	}
}

var rangeOKs = map[ssa.Value][]lin{}

func (x *bfn) rangeOK(ok ssa.Value, r, n lin) {
	rangeOKs[ok] = []lin{n.add(r, -1).plus(-1)}
}

func (x *bfn) defineCall(v *ssa.Call, out *[]bFact) {
	ge := func(l lin) { *out = append(*out, bFact{at: v, ge: l}) }
	cond := func(pre, l lin) { *out = append(*out, bFact{at: v, ge: l, pre: []lin{pre}}) }
	c := &v.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" {
			ge(x.lin(v))
		}
		if b.Name() == "len" && !isSeq(c.Args[0].Type()) || b.Name() == "cap" {
			ge(x.lin(v))
		}
		return
	}
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return
	}
	full := o.Pkg().Path() + "." + o.Name()
	if len(c.Args) == 2 && o.Pkg().Path() == "strings" {
		cs, isC := constString(c.Args[1])
		ks := "(" + x.key(c.Args[0]) + "," + x.key(c.Args[1]) + ")"
		first, last := linS("Index"+ks), linS("LastIndex"+ks)
		r := x.lin(v)
		switch o.Name() {
		case "Index", "LastIndex":
			ge(last.add(first, -1))
			if isC && cs != "" {
				*out = append(*out, bFact{at: v, seq: x.key(c.Args[0]), ge: r, ch: cs[0]},
					bFact{at: v, seq: x.key(c.Args[0]), ge: r.plus(int64(len(cs) - 1)), ch: cs[len(cs)-1]})
			}
			if !isC && x.b.configured(c.Args[1]) {
				cond(r, x.lenOf(c.Args[0]).add(r, -1).plus(-1))
			}
		case "Count":
			cond(r.plus(-1), first)
			cond(r.plus(-1), last)
		}
	}
	if o.Type().(*types.Signature).Recv() != nil {
		full = "method"
	}
	switch full {
	case "strings.Index", "strings.LastIndex":
		r, s, sep := x.lin(v), x.lenOf(c.Args[0]), x.lenOf(c.Args[1])
		ge(r.plus(1))
		cond(r, s.add(r, -1).add(sep, -1))
		ge(s.add(r, -1))
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndexAny",
		"strings.IndexFunc", "strings.LastIndexFunc":
		r, s := x.lin(v), x.lenOf(c.Args[0])
		ge(r.plus(1))
		ge(s.add(r, -1).plus(0))
		cond(r, s.add(r, -1).plus(-1))
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		ge(x.lenOf(c.Args[0]).add(x.lenOf(v), -1))
	case "strings.Split", "strings.SplitAfter":
		if s := x.lenOf(c.Args[1]); true {
			cond(s.plus(-1), x.lenOf(v).plus(-1))
			cond(x.lenOf(c.Args[0]).plus(-1), x.lenOf(v).plus(-1))
			if x.b.configured(c.Args[1]) {
				ge(x.lenOf(v).plus(-1))
			}
		}
	case "strings.Fields":
		if t, ok := c.Args[0].(*ssa.Call); ok {
			if o := calleeObj(&t.Call); o != nil && o.FullName() == "strings.TrimSpace" {
				cond(x.lenOf(t).plus(-1), x.lenOf(v).plus(-1))
			}
		}
	case "path/filepath.Ext", "path.Ext":
		ge(x.lenOf(c.Args[0]).add(x.lenOf(v), -1))
	case "path/filepath.Base", "path.Base", "path/filepath.Dir", "path.Dir":
		ge(x.lenOf(v).plus(-1))
	case "runtime.Stack":
		ge(x.lin(v))
		ge(x.lenOf(c.Args[0]).add(x.lin(v), -1))
	case "strings.Count":
		ge(x.lin(v))
	case "strings.Repeat":
		n, s := x.lin(c.Args[1]), x.lenOf(c.Args[0])
		ge(n)
		if s.isConst() {
			e := x.lenOf(v).add(n, -s.c)
			ge(e)
			ge(linC(0).add(e, -1))
		}
	case "math/rand.Intn":
		ge(x.lin(v))
		ge(x.lin(c.Args[0]).add(x.lin(v), -1).plus(-1))
	}
	// what module functions return
	g := c.StaticCallee()
	if g == nil || !x.w.InModule(g) {
		return
	}
	for _, p := range x.b.post(g) {
		if l, ok := x.instantiate(p, g, v); ok {
			ge(l)
		}
	}
}

// instantiate a postcondition of g at a call.
func (x *bfn) instantiate(p lin, g *ssa.Function, v *ssa.Call) (lin, bool) {
	r := linC(p.c)
	for s, k := range p.t {
		e, ok := x.atCall(s, g, v, &v.Call)
		if !ok {
			return r, false
		}
		r = r.add(e, k)
	}
	return r, true
}

// atCall: what a symbol of the callee stands for at the call.
func (x *bfn) atCall(s string, g *ssa.Function, v *ssa.Call, c *ssa.CallCommon) (lin, bool) {
	isLen := false
	t := s
	if strings.HasPrefix(t, "len(") {
		isLen = true
		t = t[4 : len(t)-1]
	}
	if strings.HasPrefix(t, "r") && !strings.Contains(t, ":") {
		var i int
		if n, _ := fmt.Sscanf(t, "r%d", &i); n != 1 || v == nil {
			return lin{}, false
		}
		var rv ssa.Value = v
		if g.Signature.Results().Len() > 1 {
			rv = nil
			for _, rf := range *v.Referrers() {
				if e, ok := rf.(*ssa.Extract); ok && e.Index == i {
					rv = e
				}
			}
			if rv == nil {
				return lin{}, false
			}
		}
		if isLen {
			return x.lenOf(rv), true
		}
		return x.lin(rv), true
	}
	for i, p := range g.Params {
		if t == "p:"+p.Name() && i < len(c.Args) && !c.IsInvoke() {
			if isLen {
				if !isSeq(p.Type()) {
					return lin{}, false
				}
				return x.lenOf(c.Args[i]), true
			}
			if !isInt(p.Type()) {
				return lin{}, false
			}
			return x.lin(c.Args[i]), true
		}
	}
	return lin{}, false
}

// collect gathers the facts of each block.
func (x *bfn) collect() {
	for _, b := range rpo(x.f) {
		var fs []bFact
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				if isInt(p.Type()) {
					k := x.key(p)
					x.phis[k] = p
					x.lin(p)
				} else if isSeq(p.Type()) {
					x.phis["len("+x.key(p)+")"] = p
					x.lenOf(p)
				}
			}
			x.define(in, &fs)
		}
		x.facts[b] = fs
	}
}

// edgeFacts: what the branch from p to b says.
func (x *bfn) edgeFacts(p, b *ssa.BasicBlock) []bFact {
	ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return nil
	}
	var out []bFact
	val := p.Succs[0] == b
	x.condFacts(ifi.Cond, val, &out)
	if val {
		for _, l := range rangeOKs[ifi.Cond] {
			out = append(out, bFact{ge: l})
		}
	}
	return out
}

// factsAt: everything known before an instruction (nil: at the end of the block).
func (x *bfn) factsAt(b *ssa.BasicBlock, before ssa.Instruction) []bFact {
	out := append([]bFact(nil), bFactsOf(x.pre)...)
	for d := b; d != nil; d = d.Idom() {
		for _, f := range x.facts[d] {
			if d == b && before != nil && f.at != nil && !precedes(f.at, before) {
				continue
			}
			out = append(out, f)
		}
		for _, l := range x.inv[d] {
			out = append(out, bFact{ge: l})
		}
		if len(d.Preds) == 1 {
			out = append(out, x.edgeFacts(d.Preds[0], d)...)
		}
	}
	return out
}

func bFactsOf(ls []lin) []bFact {
	var out []bFact
	for _, l := range ls {
		out = append(out, bFact{ge: l})
	}
	return out
}

func precedes(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return true
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return a != b
		}
		if in == b {
			return false
		}
	}
	return false
}

// implied: goal >= 0 follows from the facts.
func (x *bfn) implied(goal lin, fs []bFact) bool {
	if goal.isConst() {
		return goal.c >= 0
	}
	var fs2 []bFact
	bySeq := map[string][]bFact{}
	for _, f := range fs {
		if f.phi != nil {
			continue
		}
		if f.seq == "" {
			fs2 = append(fs2, f)
			continue
		}
		for _, g := range bySeq[f.seq] {
			if g.ch != f.ch {
				fs2 = append(fs2, bFact{ge: f.ge.add(g.ge, -1), ne: true})
			}
		}
		bySeq[f.seq] = append(bySeq[f.seq], f)
	}
	fs = fs2
	// only what is connected with the goal
	rel := map[string]bool{}
	for s := range goal.t {
		rel[s] = true
	}
	used := make([]bool, len(fs))
	for r := 0; r < 4; r++ {
		ch := false
		for i, f := range fs {
			if used[i] {
				continue
			}
			hit := false
			for s := range f.ge.t {
				if rel[s] {
					hit = true
				}
			}
			if !hit && len(f.ge.t) > 0 {
				continue
			}
			used[i] = true
			ch = true
			for s := range f.ge.t {
				rel[s] = true
			}
			for _, p := range f.pre {
				for s := range p.t {
					rel[s] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var cs []lin
	var conds, nes []bFact
	for i, f := range fs {
		if !used[i] {
			continue
		}
		switch {
		case f.ne:
			nes = append(nes, f)
		case len(f.pre) > 0:
			conds = append(conds, f)
		default:
			cs = append(cs, f.ge)
		}
	}
	for s := range rel {
		if sy, ok := x.syms[s]; ok && sy.isLen || strings.HasPrefix(s, "len(") {
			cs = append(cs, linS(s))
		} else if ok && unsigned(sy.v.Type()) {
			cs = append(cs, linS(s))
		}
	}
	return x.refute(cs, conds, nes, goal, 0)
}

func unsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *bfn) refute(cs []lin, conds, nes []bFact, goal lin, depth int) bool {
	neg := linC(-1).add(goal, -1)
	x.b.FM++
	if infeasible(append(append([]lin(nil), cs...), neg)) {
		return true
	}
	// facts whose premise is known (also under the negated goal)
	for ch := true; ch; {
		ch = false
		for i, f := range conds {
			if f.pre == nil {
				continue
			}
			ok := true
			for _, p := range f.pre {
				x.b.FM++
				if !infeasible(append(append([]lin(nil), cs...), neg, linC(-1).add(p, -1))) {
					ok = false
					break
				}
			}
			if ok {
				cs = append(cs, f.ge)
				conds = append(append([]bFact(nil), conds[:i]...), conds[i+1:]...)
				ch = true
				break
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i, f := range nes {
			var nx lin
			x.b.FM += 2
			switch {
			case infeasible(append(append([]lin(nil), cs...), neg, linC(-1).add(f.ge, -1))): // ge >= 0
				nx = f.ge.plus(-1)
			case infeasible(append(append([]lin(nil), cs...), neg, f.ge.plus(-1))): // ge <= 0
				nx = linC(-1).add(f.ge, -1)
			default:
				continue
			}
			cs = append(cs, nx)
			nes = append(append([]bFact(nil), nes[:i]...), nes[i+1:]...)
			ch = true
			break
		}
	}
	if infeasible(append(append([]lin(nil), cs...), neg)) {
		return true
	}
	if len(conds) > 0 && depth < 2 { // either the premise holds or not
		for i, f := range conds {
			if len(f.pre) != 1 {
				continue
			}
			rest := append(append([]bFact(nil), conds[:i]...), conds[i+1:]...)
			if x.refute(append(append([]lin(nil), cs...), linC(-1).add(f.pre[0], -1)), rest, nes, goal, depth+1) &&
				x.refute(append(append([]lin(nil), cs...), f.pre[0], f.ge), rest, nes, goal, depth+1) {
				return true
			}
		}
	}
	return false
}

// houdini finds the invariants of blocks with phis: candidates that cannot be
// shown on every way into the block are dropped until the rest is inductive.
func (x *bfn) houdini() {
	seqs := map[string]bool{}
	var ints []string
	for s, sy := range x.syms {
		if sy.isLen {
			seqs[s] = true
		}
	}
	for s := range x.phis {
		if !strings.HasPrefix(s, "len(") {
			ints = append(ints, s)
		}
	}
	sort.Strings(ints)
	var lens []string
	for s := range seqs {
		lens = append(lens, s)
	}
	sort.Strings(lens)
	cand := map[*ssa.BasicBlock][]lin{}
	var blocks []*ssa.BasicBlock
	for _, b := range rpo(x.f) {
		var here []string
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isInt(p.Type()) {
				here = append(here, x.key(p))
			} else if isSeq(p.Type()) {
				here = append(here, "len("+x.key(p)+")")
			}
		}
		if len(here) == 0 {
			continue
		}
		add := func(l lin) { cand[b] = append(cand[b], l) }
		avail := func(s string) bool { // defined outside or here
			sy, ok := x.syms[s]
			if !ok {
				return false
			}
			in, ok := sy.v.(ssa.Instruction)
			if !ok {
				return true
			}
			if in.Block() == b {
				_, isPhi := sy.v.(*ssa.Phi)
				return isPhi
			}
			return in.Block().Dominates(b)
		}
		for _, s := range here {
			if strings.HasPrefix(s, "len(") {
				add(linS(s).plus(-1))
				for _, q := range lens {
					if q != s && avail(q) {
						add(linS(s).add(linS(q), -1))
						add(linS(q).add(linS(s), -1))
					}
				}
				for _, q := range ints {
					if avail(q) && x.phis[q].Block() == b {
						add(linS(s).add(linS(q), -1))
						add(linS(s).add(linS(q), -1).plus(-1))
						add(linS(q).add(linS(s), -1))
						add(linS(q).add(linS(s), -1).plus(1))
					}
				}
				continue
			}
			add(linS(s))
			add(linS(s).plus(1))
			add(linS(s).plus(-1))
			for _, q := range lens {
				if avail(q) {
					add(linS(q).add(linS(s), -1))
					add(linS(q).add(linS(s), -1).plus(-1))
					add(linS(s).add(linS(q), -1))
				}
			}
			for q, sy := range x.syms {
				if q != s && !sy.isLen && avail(q) && isInt(sy.v.Type()) {
					_, isPhi := sy.v.(*ssa.Phi)
					_, isPar := sy.v.(*ssa.Parameter)
					if isPhi || isPar || true {
						add(linS(q).add(linS(s), -1))
						add(linS(s).add(linS(q), -1))
					}
				}
			}
		}
		if len(cand[b]) > 240 {
			cand[b] = cand[b][:240]
		}
		blocks = append(blocks, b)
	}
	for _, b := range blocks {
		x.inv[b] = cand[b]
	}
	for ch, round := true, 0; ch && round < 12; round++ {
		ch = false
		for _, b := range blocks {
			var keep []lin
			for _, l := range x.inv[b] {
				ok := true
				for i, p := range b.Preds {
					g, fine := x.onEdge(l, b, i)
					if !fine || !x.implied(g, append(x.factsAt(p, nil), x.edgeFacts(p, b)...)) && !x.proveByPreds(g, p, nil, 1) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, l)
				}
			}
			if len(keep) != len(x.inv[b]) {
				x.inv[b] = keep
				ch = true
			}
		}
		if ch && round == 11 {
			for _, b := range blocks {
				x.inv[b] = nil
			}
		}
	}
}

// onEdge: the expression with the phis of b replaced by what they get from pred i.
func (x *bfn) onEdge(l lin, b *ssa.BasicBlock, i int) (lin, bool) {
	r := linC(l.c)
	for s, k := range l.t {
		if p := x.phis[s]; p != nil && p.Block() == b {
			if strings.HasPrefix(s, "len(") {
				r = r.add(x.lenOf(p.Edges[i]), k)
			} else {
				r = r.add(x.lin(p.Edges[i]), k)
			}
			continue
		}
		r = r.add(linS(s), k)
	}
	return r, true
}

// prove: goal >= 0 before the instruction.
func (x *bfn) prove(goal lin, b *ssa.BasicBlock, before ssa.Instruction) bool {
	if x.implied(goal, x.factsAt(b, before)) {
		return true
	}
	return x.proveByPreds(goal, b, before, 3)
}

// proveByPreds shows it on each way into the block or one that dominates it.
func (x *bfn) proveByPreds(goal lin, b *ssa.BasicBlock, before ssa.Instruction, depth int) bool {
	return x.proveWays(goal, x.factsAt(b, before), b, depth)
}

func (x *bfn) proveWays(goal lin, local []bFact, b *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) < 2 {
			continue
		}
		loop := false
		for _, p := range d.Preds {
			if d.Dominates(p) {
				loop = true
			}
		}
		if loop {
			return false
		}
		all := true
		for i, p := range d.Preds {
			fs := append(x.factsAt(p, nil), x.edgeFacts(p, d)...)
			cut := false
			for _, f := range local {
				if f.phi == nil {
					continue
				}
				if f.phi.Block() != d {
					fs = append(fs, f)
					continue
				}
				if c, ok := f.phi.Edges[i].(*ssa.Const); ok && c.Value != nil {
					cut = cut || (c.Value.String() == "true") != f.val
				} else {
					x.condFacts(f.phi.Edges[i], f.val, &fs)
				}
			}
			if cut {
				continue // this way leads elsewhere
			}
			// what is known here, said with the values of that way
			for _, f := range local {
				if f.phi != nil {
					continue
				}
				g, _ := x.onEdge(f.ge, d, i)
				nf := bFact{ge: g, ne: f.ne, seq: f.seq, ch: f.ch}
				for _, q := range f.pre {
					q2, _ := x.onEdge(q, d, i)
					nf.pre = append(nf.pre, q2)
				}
				fs = append(fs, nf)
			}
			g, _ := x.onEdge(goal, d, i)
			if !x.implied(g, fs) && !x.proveWays(g, fs, p, depth-1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// post: what a function returns, in terms of its parameters.
func (b *bounds) post(g *ssa.Function) []lin {
	if b.postB[g] {
		return b.posts[g]
	}
	b.postB[g] = true
	res := g.Signature.Results()
	any := false
	for i := 0; i < res.Len(); i++ {
		if isInt(res.At(i).Type()) || isSeq(res.At(i).Type()) {
			any = true
		}
	}
	if !any || len(g.Blocks) == 0 {
		return nil
	}
	self := false
	forEachInstr(g, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == g {
			self = true
		}
	})
	if self {
		// by induction over the calls: what is assumed of the inner ones must follow for the outer one
		b.posts[g] = postCands(g)
		delete(b.fns, g)
		for round := 0; round < 8; round++ {
			out := b.postOf(g, b.posts[g])
			if len(out) == len(b.posts[g]) {
				break
			}
			b.posts[g] = out
			delete(b.fns, g)
			if round == 7 {
				b.posts[g] = nil
			}
		}
		return b.posts[g]
	}
	b.posts[g] = b.postOf(g, postCands(g))
	return b.posts[g]
}

// postOf: those of the candidates which hold at all returns
func (b *bounds) postOf(g *ssa.Function, cands []lin) []lin {
	x := b.fn(g)
	var rets []*ssa.Return
	forEachInstr(g, func(in ssa.Instruction) {
		if r, ok := in.(*ssa.Return); ok {
			rets = append(rets, r)
		}
	})
	if len(rets) == 0 {
		return nil
	}
	var out []lin
	for _, c := range cands {
		ok := true
		for _, r := range rets {
			gl := linC(c.c)
			for s, k := range c.t {
				if strings.Contains(s, "p:") {
					gl = gl.add(linS(s), k)
					continue
				}
				var i int
				isLen := strings.HasPrefix(s, "len(")
				fmt.Sscanf(strings.TrimSuffix(strings.TrimPrefix(s, "len("), ")"), "r%d", &i)
				v := r.Results[i]
				if isLen {
					gl = gl.add(x.lenOf(v), k)
				} else {
					gl = gl.add(x.lin(v), k)
				}
			}
			if !x.prove(gl, r.Block(), r) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, c)
		}
	}
	return out
}

// ---- obligations ----

type bObl struct {
	In   ssa.Instruction
	What string
	Goal lin
}

func (x *bfn) obligations() []bObl {
	var out []bObl
	forEachInstr(x.f, func(in ssa.Instruction) {
		ix := func(seq ssa.Value, i ssa.Value) {
			var n lin
			if isSeq(seq.Type()) {
				n = x.lenOf(seq)
			} else if a, ok := deref(seq.Type()).Underlying().(*types.Array); ok {
				n = linC(a.Len())
			} else {
				return
			}
			l := x.lin(i)
			out = append(out, bObl{in, "index not negative", l}, bObl{in, "index below the length", n.add(l, -1).plus(-1)})
		}
		switch v := in.(type) {
		case *ssa.IndexAddr:
			ix(v.X, v.Index)
		case *ssa.Index:
			ix(v.X, v.Index)
		case *ssa.Lookup:
			if isSeq(v.X.Type()) {
				ix(v.X, v.Index)
			}
		case *ssa.Slice:
			var n lin
			if isSeq(v.X.Type()) {
				n = x.lenOf(v.X)
			} else if a, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
				n = linC(a.Len())
			} else {
				return
			}
			lo, hi := linC(0), n
			if v.Low != nil {
				lo = x.lin(v.Low)
				out = append(out, bObl{in, "start of the slice not negative", lo})
			}
			if v.High != nil {
				hi = x.lin(v.High)
				out = append(out, bObl{in, "end of the slice within the length", n.add(hi, -1)})
			}
			if v.Low != nil || v.High != nil {
				out = append(out, bObl{in, "start of the slice not behind its end", hi.add(lo, -1)})
			}
		}
	})
	return out
}
