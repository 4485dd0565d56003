package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The carry analysis: words are resources. A function that is given words and
// hands words on must, on every path that does not report an error, put each of
// them into what it hands on, keep it for the next turn of a loop, or have found
// it empty (or equal to a mark). Paths are cut at loop headers; a loop variable
// that some later path lets go of is not counted as a place where words are kept.

type carry struct {
	w           *World
	dropOnFalse map[*ssa.Function]bool // the function gives nothing when it reports false
	busy        map[*ssa.Function]bool
	done        map[*ssa.Function]*carryFn
}

type carryFn struct {
	c       *carry
	f       *ssa.Function
	x       *bfn
	T       map[ssa.Value]bool
	headers map[*ssa.BasicBlock]bool
	live    map[*ssa.BasicBlock][]ssa.Value
	demoted map[*ssa.BasicBlock]map[ssa.Value]string
	Drops   []carryDrop
	Paths   int
	Errors  map[*ssa.Call]bool
	Words   int
	Over    bool
}

type carryDrop struct {
	What  string
	At    ssa.Instruction
	Trace []string
}

func (w *World) carry() *carry {
	return w.Memo("carry", func() interface{} {
		return &carry{w, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]*carryFn{}}
	}).(*carry)
}

func (c *carry) pieceType(t types.Type) bool {
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() != nil && strings.HasPrefix(u.Obj().Pkg().Path(), c.w.pkgPath("")) {
			switch s := u.Underlying().(type) {
			case *types.Map, *types.Slice:
				return true
			case *types.Struct:
				n := u.Obj().Name()
				if strings.HasSuffix(u.Obj().Pkg().Path(), "core/model") {
					return n == "MatchedCmd" || n == "ParsedCmd" || n == "ParsedCmds" || n == "ParsedEnvVal"
				}
				for i := 0; i < s.NumFields(); i++ {
					if l, ok := s.Field(i).Type().(*types.Slice); ok && c.pieceType(l) {
						return true
					}
					if _, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
						return true
					}
				}
			}
		}
		return false
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if c.pieceType(u.Elem()) {
			return true
		}
		n, ok := u.Elem().(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "core/parser")
	case *types.Pointer:
		return c.pieceType(u.Elem())
	case *types.Array:
		return c.pieceType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if c.pieceType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// wordType: a word, or a list of words
func (k *carryFn) wordType(t types.Type) bool {
	if l, ok := t.Underlying().(*types.Slice); ok {
		return k.wordType(l.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "ParsedCmd" {
		return true
	}
	return isStringType(t)
}

func (c *carry) listType(t types.Type) bool { return c.pieceType(t) && !isStringType(t) }

// wanted: functions that are given a list of words and give back words.
func (c *carry) wanted(f *ssa.Function) bool {
	if f.Parent() != nil || len(f.Blocks) == 0 {
		return false
	}
	in, out := false, false
	for _, p := range f.Params {
		if _, ok := p.Type().(*types.Slice); ok && c.pieceType(p.Type()) {
			in = true
		}
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if c.listType(rs.At(i).Type()) {
			out = true
		}
	}
	return in && out
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return v
		}
	}
}

func (c *carry) analyse(f *ssa.Function) *carryFn {
	if d := c.done[f]; d != nil {
		return d
	}
	if c.busy[f] {
		return nil
	}
	c.busy[f] = true
	defer delete(c.busy, f)
	forEachInstr(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && c.w.InModule(g) && c.wanted(g) && pkgOf(g) == pkgOf(f) {
				c.analyse(g)
			}
		}
	})
	k := &carryFn{c: c, f: f, x: c.w.bounds().fn(f), T: map[ssa.Value]bool{}, headers: map[*ssa.BasicBlock]bool{},
		live: map[*ssa.BasicBlock][]ssa.Value{}, demoted: map[*ssa.BasicBlock]map[ssa.Value]string{}, Errors: map[*ssa.Call]bool{}}
	c.done[f] = k
	k.taint()
	k.liveness()
	for round := 0; round < 40; round++ {
		before := k.nDemoted()
		k.Drops, k.Paths, k.Words = nil, 0, 0
		k.segment(f.Blocks[0], nil)
		for _, b := range f.Blocks {
			if k.headers[b] {
				k.segment(b, b)
			}
		}
		if k.nDemoted() == before {
			break
		}
	}
	return k
}

func (k *carryFn) nDemoted() int {
	n := 0
	for _, m := range k.demoted {
		n += len(m)
	}
	return n
}

func (k *carryFn) taint() {
	f := k.f
	for _, p := range f.Params {
		if _, ok := p.Type().(*types.Slice); ok && k.c.pieceType(p.Type()) {
			k.T[p] = true
		}
		if strings.HasSuffix(p.Type().String(), "core/model.ParsedCmds") {
			k.T[p] = true // held by the caller
		}
	}
	for _, fv := range f.FreeVars {
		if k.c.pieceType(fv.Type()) {
			k.T[fv] = true
		}
	}
	for ch := true; ch; {
		ch = false
		set := func(v ssa.Value) {
			if !k.T[v] {
				k.T[v] = true
				ch = true
			}
		}
		forEachInstr(f, func(in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.Store:
				if k.T[y.Val] {
					r := addrRoot(y.Addr)
					if _, ok := r.(*ssa.Alloc); ok {
						set(r)
					}
				}
			case *ssa.MapUpdate:
				if k.T[y.Key] || k.T[y.Value] {
					if _, ok := y.Map.(*ssa.MakeMap); ok {
						set(y.Map)
					}
				}
			case *ssa.MakeClosure:
				for _, b := range y.Bindings {
					if k.T[b] {
						set(y)
					}
				}
			case ssa.Value:
				if k.T[y] {
					return
				}
				ok := false
				for _, op := range in.Operands(nil) {
					if *op != nil && k.T[*op] {
						ok = true
					}
				}
				if !ok {
					return
				}
				switch z := in.(type) {
				case *ssa.IndexAddr, *ssa.FieldAddr:
					set(y)
				case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
					set(y)
				case *ssa.BinOp:
					if z.Op == token.ADD && isStringType(z.Type()) {
						set(y)
					}
				case *ssa.Next, *ssa.Range:
				default:
					if k.c.pieceType(y.Type()) {
						set(y)
					}
				}
			}
		})
	}
}

func (k *carryFn) liveness() {
	f := k.f
	for _, b := range f.Blocks {
		if loopBlocks(b) != nil {
			k.headers[b] = true
		}
	}
	for h := range k.headers {
		k.demoted[h] = map[ssa.Value]string{}
		used := func(v ssa.Value) bool {
			// blocks reached without the value being computed anew
			var def *ssa.BasicBlock
			if in, ok := v.(ssa.Instruction); ok {
				def = in.Block()
			}
			reach := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				if reach[b] || b == def {
					return
				}
				reach[b] = true
				for _, s := range b.Succs {
					walk(s)
				}
			}
			walk(h)
			for _, u := range *v.Referrers() {
				if reach[u.Block()] {
					if p, ok := u.(*ssa.Phi); ok {
						// used on the edge, not in the block
						hit := false
						for i, e := range p.Edges {
							if e == v && reach[p.Block().Preds[i]] {
								hit = true
							}
						}
						if !hit {
							continue
						}
					}
					return true
				}
			}
			return false
		}
		add := func(v ssa.Value) {
			if v.Referrers() != nil && used(v) {
				k.live[h] = append(k.live[h], v)
			}
		}
		for _, p := range f.Params {
			if k.T[p] {
				add(p)
			}
		}
		for _, b := range f.Blocks {
			if b == h || !b.Dominates(h) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !k.T[v] {
					continue
				}
				switch v.(type) {
				case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.MakeInterface:
					continue
				}
				if _, ok := v.Type().(*types.Tuple); ok {
					continue
				}
				add(v)
			}
		}
	}
}

// one path from a start to the next loop header or to the end

type cPath struct {
	phi    map[*ssa.Phi]ssa.Value
	conds  []cCond
	blocks []*ssa.BasicBlock
	instrs []ssa.Instruction
}

type cCond struct {
	V   ssa.Value
	Val bool
}

func (p *cPath) res(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		n, ok := p.phi[ph]
		if !ok {
			return v
		}
		v = n
	}
	return v
}

const carryMaxPaths = 40000

func (k *carryFn) segment(start, header *ssa.BasicBlock) {
	p := &cPath{phi: map[*ssa.Phi]ssa.Value{}}
	var walk func(b, from *ssa.BasicBlock)
	walk = func(b, from *ssa.BasicBlock) {
		if k.Paths > carryMaxPaths {
			k.Over = true
			return
		}
		if from != nil && k.headers[b] {
			k.Paths++
			k.judge(p, start, header, b, from, nil)
			return
		}
		nb, ni, nc := len(p.blocks), len(p.instrs), len(p.conds)
		p.blocks = append(p.blocks, b)
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				if from != nil {
					for i, pr := range b.Preds {
						if pr == from {
							phis = append(phis, ph)
							p.phi[ph] = ph.Edges[i]
						}
					}
				}
				continue
			}
			p.instrs = append(p.instrs, in)
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			k.Paths++
			k.judge(p, start, header, nil, nil, t)
		case *ssa.Panic:
		case *ssa.If:
			for i, s := range b.Succs {
				val := i == 0
				cv := p.res(t.Cond)
				neg := false
				for {
					u, ok := cv.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cv = p.res(u.X)
					neg = !neg
				}
				v2 := val != neg
				if c, ok := cv.(*ssa.Const); ok {
					if (c.Value != nil && c.Value.String() == "true") != v2 {
						continue
					}
				}
				clash := false
				for _, c := range p.conds {
					if c.V == cv && c.Val != v2 {
						clash = true
					}
				}
				if clash {
					continue
				}
				n := len(p.conds)
				if _, ok := cv.(*ssa.Const); !ok {
					p.conds = append(p.conds, cCond{cv, v2})
				}
				walk(s, b)
				p.conds = p.conds[:n]
			}
		default:
			for _, s := range b.Succs {
				walk(s, b)
			}
		}
		for _, ph := range phis {
			delete(p.phi, ph)
		}
		p.blocks, p.instrs, p.conds = p.blocks[:nb], p.instrs[:ni], p.conds[:nc]
	}
	walk(start, nil)
}

// the graph of one path
type cGraph struct {
	k       *carryFn
	p       *cPath
	rep     map[string]ssa.Value // element of a list by constant index
	into    map[ssa.Value][]ssa.Value
	from    map[ssa.Value][]ssa.Value
	split   map[ssa.Value][][]ssa.Value
	parts   map[ssa.Value][]ssa.Value // slices of a text or list
	elems   map[ssa.Value]map[int64]ssa.Value
	ranged  map[ssa.Value][]ssa.Value // elements by moving index
	cov     map[ssa.Value]bool        // strong
	alive   map[ssa.Value]bool
	decided map[ssa.Value]bool
	leafs   []ssa.Value
}

func (g *cGraph) edge(a, b ssa.Value) {
	g.into[a] = append(g.into[a], b)
	g.from[b] = append(g.from[b], a)
}

// val: the node of a value on this path
func (g *cGraph) val(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		v = g.p.res(v)
		switch y := v.(type) {
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		case *ssa.Convert:
			v = y.X
		case *ssa.TypeAssert:
			if y.CommaOk {
				return v
			}
			v = y.X
		default:
			return g.canon(v)
		}
	}
	return v
}

// canon: loads of the same element of a list are one node
func (g *cGraph) canon(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return v
	}
	l := g.val(ia.X)
	key := fmt.Sprintf("%p/%p", l, g.p.res(ia.Index))
	if n, ok := constInt(g.p.res(ia.Index)); ok {
		key = fmt.Sprintf("%p#%d", l, n)
	}
	if r := g.rep[key]; r != nil {
		return r
	}
	g.rep[key] = v
	return v
}

func observerCall(c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap"
	}
	return false
}

// onlyObserved: the value is only looked at, never kept or handed on
func (k *carryFn) onlyObserved(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch y := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if y.Op == token.ADD {
				return false
			}
		case ssa.CallInstruction:
			if observerCall(y.Common()) {
				continue
			}
			cv, ok := u.(ssa.Value)
			if !ok || k.c.pieceType(cv.Type()) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (k *carryFn) judge(p *cPath, start, header, end, from *ssa.BasicBlock, ret *ssa.Return) {
	if ret != nil && k.reportsError(p, ret) {
		return
	}
	g := &cGraph{k: k, p: p, rep: map[string]ssa.Value{}, into: map[ssa.Value][]ssa.Value{}, from: map[ssa.Value][]ssa.Value{},
		split: map[ssa.Value][][]ssa.Value{}, parts: map[ssa.Value][]ssa.Value{}, elems: map[ssa.Value]map[int64]ssa.Value{},
		ranged: map[ssa.Value][]ssa.Value{}, cov: map[ssa.Value]bool{}, alive: map[ssa.Value]bool{}, decided: map[ssa.Value]bool{}}
	var initial []ssa.Value
	if header == nil {
		for _, q := range k.f.Params {
			if _, ok := q.Type().(*types.Pointer); !ok && k.T[q] {
				g.leafs = append(g.leafs, q)
			}
		}
	} else {
		for _, in := range header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if k.T[ph] && k.demoted[header][ph] == "" {
				initial = append(initial, ph)
			}
		}
		for _, v := range k.live[header] {
			if k.demoted[header][v] == "" {
				initial = append(initial, v)
			}
		}
	}
	for _, in := range p.instrs {
		g.instr(in)
	}
	if ret != nil {
		for _, r := range ret.Results {
			g.cov[g.val(r)] = true
		}
	} else {
		idx := 0
		for i, pr := range end.Preds {
			if pr == from {
				idx = i
			}
		}
		for _, in := range end.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if k.T[ph] && k.demoted[end][ph] == "" {
				g.cov[g.val(ph.Edges[idx])] = true
			}
		}
		for _, v := range k.live[end] {
			if k.demoted[end][v] == "" {
				g.alive[g.val(v)] = true
			}
		}
	}
	for _, c := range p.conds {
		g.decide(c)
	}
	g.decideLists(initial)
	g.solve()
	if ret != nil && k.notFound(p, ret) {
		// giving nothing back loses the words only where there were some
		for _, v := range append(append([]ssa.Value{}, g.leafs...), initial...) {
			if !g.covered(g.val(v)) {
				k.c.dropOnFalse[k.f] = true
				return
			}
		}
	}
	k.Words += len(g.leafs) + len(initial)
	k.errors(p, g, header)
	k.overwritten(p)
	if end != nil && end == header {
		k.stride(p, end, from)
	}
	where := func() string {
		if ret != nil {
			return k.c.w.InstrPos(ret)
		}
		return k.c.w.InstrPos(end.Instrs[len(end.Instrs)-1])
	}
	for _, v := range initial {
		if !g.covered(g.val(v)) {
			k.demoted[header][v] = where()
		}
	}
	for _, v := range g.leafs {
		if g.covered(v) {
			continue
		}
		at := p.instrs[len(p.instrs)-1]
		what := k.describe(v)
		dup := false
		for _, d := range k.Drops {
			if d.What == what {
				dup = true
			}
		}
		if dup {
			continue
		}
		var tr []string
		for _, c := range p.conds {
			if in, ok := c.V.(ssa.Instruction); ok {
				tr = append(tr, fmt.Sprintf("%s: condition is %v", k.c.w.InstrPos(in), c.Val))
			}
		}
		if end != nil {
			var lost []string
			for dv, w := range k.demoted[end] {
				lost = append(lost, fmt.Sprintf("%s is let go at %s", k.describe(dv), w))
			}
			sort.Strings(lost)
			tr = append(tr, lost...)
		}
		k.Drops = append(k.Drops, carryDrop{what, at, tr})
	}
}

// stride: a loop that moves on by several words has read each of them
func (k *carryFn) stride(p *cPath, h, from *ssa.BasicBlock) {
	idx := 0
	for i, pr := range h.Preds {
		if pr == from {
			idx = i
		}
	}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInt(ph.Type()) {
			continue
		}
		next := k.plin(p, ph.Edges[idx], ph, 0).add(k.x.lin(ph), -1)
		if !next.isConst() || next.c < 1 || next.c > 8 {
			continue
		}
		read := map[ssa.Value]map[int64]bool{}
		for _, in := range p.instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !k.T[p.res(ia.X)] {
				continue
			}
			d := k.x.lin(p.res(ia.Index)).add(k.x.lin(ph), -1)
			if !d.isConst() {
				continue
			}
			l := p.res(ia.X)
			if read[l] == nil {
				read[l] = map[int64]bool{}
			}
			read[l][d.c] = true
		}
		if next.c == 1 {
			// the word a turn stands at is read on every way of the turn, if on any
			base := int64(0)
			for i, pr := range h.Preds {
				if n, ok := constInt(ph.Edges[i]); ok && n == -1 && !loopBlocks(h)[pr] {
					base = 1
				}
			}
			at := map[ssa.Value]map[int64]bool{}
			for b := range loopBlocks(h) {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && k.T[p.res(ia.X)] && k.listOfWords(ia.X.Type()) {
						d := k.x.lin(p.res(ia.Index)).add(k.x.lin(ph), -1)
						if d.isConst() && d.c == base {
							l := p.res(ia.X)
							at[l] = map[int64]bool{0: read[l][base]}
						}
					}
				}
			}
			read = at
		}
		for _, offs := range read {
			for o := int64(0); o < next.c; o++ {
				if offs[o] {
					continue
				}
				what := fmt.Sprintf("word %d of %d of a step over a list", o+1, next.c)
				dup := false
				for _, d := range k.Drops {
					dup = dup || d.What == what
				}
				if !dup {
					var tr []string
					for _, c := range p.conds {
						if in, ok := c.V.(ssa.Instruction); ok {
							tr = append(tr, fmt.Sprintf("%s: condition is %v", k.c.w.InstrPos(in), c.Val))
						}
					}
					k.Drops = append(k.Drops, carryDrop{what, h.Instrs[len(h.Instrs)-1], tr})
				}
			}
		}
	}
}

// errors: an error that a reader of words reports is not passed over
func (k *carryFn) errors(p *cPath, g *cGraph, header *ssa.BasicBlock) {
	for _, in := range p.instrs {
		cv, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		tup, ok := cv.Type().(*types.Tuple)
		if !ok {
			continue
		}
		given := false
		for _, a := range cv.Call.Args {
			if k.T[a] {
				given = true
			}
		}
		if !given {
			continue
		}
		for i := 0; i < tup.Len(); i++ {
			if !isErrorType(tup.At(i).Type()) {
				continue
			}
			var ex *ssa.Extract
			for _, u := range *cv.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == i {
					ex = e
				}
			}
			k.Errors[cv] = true
			if ex != nil && (k.keptErr(ex) || knownNil(p, ex)) {
				continue
			}
			what := "the error of " + callName(&cv.Call)
			dup := false
			for _, d := range k.Drops {
				dup = dup || d.What == what
			}
			if !dup {
				k.Drops = append(k.Drops, carryDrop{what, cv, nil})
			}
		}
	}
}

func knownNil(p *cPath, e ssa.Value) bool {
	for _, c := range p.conds {
		b, ok := c.V.(*ssa.BinOp)
		if !ok || (b.Op == token.EQL) != c.Val || (b.Op != token.EQL && b.Op != token.NEQ) {
			continue
		}
		for _, s := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if n, ok := s[1].(*ssa.Const); ok && n.Value == nil && p.res(s[0]) == e {
				return true
			}
		}
	}
	return false
}

// keptErr: the error becomes the Error of a parse result on every way to a return
func (k *carryFn) keptErr(e ssa.Value) bool {
	vals := []ssa.Value{e}
	for i := 0; i < len(vals) && i < 20; i++ {
		for _, u := range *vals[i].Referrers() {
			switch y := u.(type) {
			case *ssa.MakeInterface:
				vals = append(vals, y)
			case *ssa.Store:
				if y.Val != vals[i] || !k.c.w.isField(y.Addr, "core/model", "ParseResult", "Error") {
					continue
				}
				all := true
				for _, b := range k.f.Blocks {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !y.Block().Dominates(b) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func (k *carryFn) describe(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.Parameter:
		return "the parameter " + y.Name()
	case *ssa.Phi:
		return "the variable " + y.Comment
	case *ssa.Alloc:
		return "the variable " + y.Comment
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return fmt.Sprintf("result %d of %s", y.Index+1, callName(&c.Call))
		}
	case *ssa.Call:
		return "the result of " + callName(&y.Call)
	case *ssa.UnOp:
		return "an element of a list"
	}
	return v.Name()
}

func callName(c *ssa.CallCommon) string {
	if g := c.StaticCallee(); g != nil {
		return g.Name()
	}
	if c.IsInvoke() {
		return c.Method.Name()
	}
	return c.Value.Name()
}

func (k *carryFn) reportsError(p *cPath, ret *ssa.Return) bool {
	rs := k.f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !isErrorType(rs.At(i).Type()) {
			continue
		}
		v := p.res(ret.Results[i])
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a result kept in memory: its last store on the path
			for j := len(p.instrs) - 1; j >= 0; j-- {
				if s, ok := p.instrs[j].(*ssa.Store); ok && s.Addr == u.X {
					v = p.res(s.Val)
					break
				}
			}
		}
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		nilKnown := false
		for _, c := range p.conds {
			if b, ok := c.V.(*ssa.BinOp); ok && (p.res(b.X) == v || b.X == v) {
				if n, ok := b.Y.(*ssa.Const); ok && n.Value == nil && (b.Op == token.EQL) == c.Val {
					nilKnown = true
				}
			}
		}
		if !nilKnown {
			return true
		}
	}
	return false
}

// notFound: the function gives nothing back and says so
func (k *carryFn) notFound(p *cPath, ret *ssa.Return) bool {
	rs := k.f.Signature.Results()
	no := false
	for i := 0; i < rs.Len(); i++ {
		v := p.res(ret.Results[i])
		c, isC := v.(*ssa.Const)
		switch {
		case rs.At(i).Type().String() == "bool":
			if isC && c.Value != nil && c.Value.String() == "false" {
				no = true
			}
		case k.c.listType(rs.At(i).Type()):
			if !isC || c.Value != nil {
				return false
			}
		}
	}
	return no
}

func (g *cGraph) instr(in ssa.Instruction) {
	k := g.k
	switch y := in.(type) {
	case *ssa.Store:
		if !k.T[y.Val] && !k.T[g.p.res(y.Val)] {
			return
		}
		v := g.val(y.Val)
		r := addrRoot(y.Addr)
		if _, ok := r.(*ssa.Alloc); ok {
			g.edge(v, r)
			return
		}
		if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
			if k.T[g.p.res(ia.X)] {
				g.edge(v, g.val(ia.X))
				return
			}
		}
		g.cov[v] = true
	case *ssa.MapUpdate:
		for _, o := range []ssa.Value{y.Key, y.Value} {
			if k.T[o] || k.T[g.p.res(o)] {
				if k.T[g.p.res(y.Map)] {
					g.edge(g.val(o), g.val(y.Map))
				} else {
					g.cov[g.val(o)] = true
				}
			}
		}
	case *ssa.Send:
		g.cov[g.val(y.X)] = true
	case *ssa.MakeClosure:
		for _, b := range y.Bindings {
			if k.T[b] {
				g.edge(g.val(b), y)
			}
		}
	case ssa.CallInstruction:
		g.call(y)
	case *ssa.UnOp:
		if y.Op != token.MUL || !k.T[y] {
			return
		}
		if ia, ok := y.X.(*ssa.IndexAddr); ok {
			l := g.val(ia.X)
			n := g.canon(y)
			if _, isAlloc := l.(*ssa.Alloc); !isAlloc {
				if c, ok := constInt(g.p.res(ia.Index)); ok {
					if g.elems[l] == nil {
						g.elems[l] = map[int64]ssa.Value{}
					}
					g.elems[l][c] = n
				} else if n == ssa.Value(y) {
					g.ranged[l] = append(g.ranged[l], n)
					if k.rangeElem(ia) && k.wordType(n.Type()) {
						g.leafs = append(g.leafs, n)
					}
				}
				return
			}
		}
		if r, ok := addrRoot(y.X).(*ssa.Alloc); ok {
			g.edge(r, y)
		} else if fa, ok := y.X.(*ssa.FieldAddr); ok && k.T[fa.X] {
			g.edge(g.val(fa.X), y)
		}
	case *ssa.Slice:
		if !k.T[y] {
			return
		}
		b := g.val(y.X)
		if _, ok := b.(*ssa.Alloc); ok {
			g.edge(b, y)
			return
		}
		if isStringType(y.Type()) && k.onlyObserved(y) {
			return
		}
		g.parts[b] = append(g.parts[b], y)
	case *ssa.BinOp:
		if y.Op == token.ADD && k.T[y] {
			for _, o := range []ssa.Value{y.X, y.Y} {
				if k.T[g.p.res(o)] {
					g.edge(g.val(o), y)
				}
			}
		}
	case *ssa.Extract:
		if k.T[y] {
			g.from[y] = append(g.from[y], y.Tuple)
		}
	case *ssa.Field:
		if k.T[y] {
			g.edge(g.val(y.X), y)
		}
	case *ssa.Lookup:
		if k.T[y] && k.T[y.X] {
			g.edge(g.val(y.X), y)
		}
	}
}

// rangeElem: the element is loaded at the index of a loop over the whole list
func (k *carryFn) rangeElem(ia *ssa.IndexAddr) bool {
	h := innermostLoop(ia.Block())
	for h != nil {
		if lr := loopRange(h); lr != nil && !lr.IsMap && lr.Over == ia.X {
			return true
		}
		// an outer loop
		var up *ssa.BasicBlock
		n := 1 << 30
		for _, b := range k.f.Blocks {
			if b == h {
				continue
			}
			if l := loopBlocks(b); l != nil && l[h] && len(l) < n {
				up, n = b, len(l)
			}
		}
		h = up
	}
	return false
}

func (g *cGraph) call(ci ssa.CallInstruction) {
	k := g.k
	c := ci.Common()
	if observerCall(c) {
		return
	}
	var ins []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && k.T[g.p.res(v)] {
			ins = append(ins, g.val(v))
		}
	}
	for _, a := range c.Args {
		add(a)
	}
	if !c.IsInvoke() {
		add(c.Value)
	}
	if len(ins) == 0 {
		return
	}
	if _, ok := ci.(*ssa.Call); !ok {
		for _, v := range ins {
			g.cov[v] = true
		}
		return
	}
	cv := ci.Value()
	res := cv.Type()
	tup, isTuple := res.(*types.Tuple)
	if isTuple && tup.Len() == 0 {
		for _, v := range ins {
			g.cov[v] = true
		}
		return
	}
	if callee := c.StaticCallee(); callee != nil && k.c.dropOnFalse[callee] {
		// what it gives when it reports false is not what it was given
		for _, cd := range g.p.conds {
			if e, ok := cd.V.(*ssa.Extract); ok && e.Tuple == cv && !cd.Val {
				return
			}
		}
	}
	if !isTuple {
		if !k.c.pieceType(res) {
			return
		}
		for _, v := range ins {
			g.edge(v, cv)
		}
		_, isB := c.Value.(*ssa.Builtin)
		if !isB && k.c.listType(res) {
			g.leafs = append(g.leafs, cv)
		}
		return
	}
	var outs []ssa.Value
	for i := 0; i < tup.Len(); i++ {
		if !k.c.pieceType(tup.At(i).Type()) {
			continue
		}
		var ex ssa.Value
		for _, u := range *cv.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == i {
				ex = e
			}
		}
		if ex == nil {
			if k.c.listType(tup.At(i).Type()) {
				// thrown away unseen
				outs = append(outs, cv)
			}
			continue
		}
		outs = append(outs, ex)
		if k.c.listType(tup.At(i).Type()) {
			g.leafs = append(g.leafs, ex)
			if g.nilOnFalse(c, cv, i) {
				g.decided[ex] = true
			}
		}
	}
	for _, v := range ins {
		g.split[v] = append(g.split[v], outs)
		for _, o := range outs {
			g.from[o] = append(g.from[o], v)
		}
	}
}

// nilOnFalse: the path knows that the call reported false, and then result i is nil.
func (g *cGraph) nilOnFalse(c *ssa.CallCommon, cv ssa.Value, i int) bool {
	callee := c.StaticCallee()
	if callee == nil || len(callee.Blocks) == 0 {
		return false
	}
	for _, cd := range g.p.conds {
		e, ok := cd.V.(*ssa.Extract)
		if !ok || e.Tuple != cv || cd.Val || e.Type().String() != "bool" {
			continue
		}
		good := true
		for _, b := range callee.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if n, ok := r.Results[i].(*ssa.Const); ok && n.Value == nil {
				continue
			}
			if bv, ok := r.Results[e.Index].(*ssa.Const); ok && bv.Value != nil && bv.Value.String() == "true" {
				continue
			}
			if knownTrue(r.Results[e.Index], b) {
				continue
			}
			good = false
		}
		if good {
			return true
		}
	}
	return false
}

func knownTrue(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && ifi.Cond == v && p.Succs[0] == d && p.Succs[1] != d {
			return true
		}
	}
	return false
}

// same: the node, and what it is a trimmed form of
func (g *cGraph) decide(c cCond) {
	if cl, ok := c.V.(*ssa.Call); ok && c.Val && g.k.c.w.callsMethod(&cl.Call, "core/model", "ParsedCmd", "IsAllEmptySegments") {
		g.decided[g.val(cl.Call.Args[0])] = true
		if u, ok := g.val(cl.Call.Args[0]).(*ssa.UnOp); ok {
			for _, o := range g.from[u] {
				g.decided[o] = true
			}
		}
		return
	}
	b, ok := c.V.(*ssa.BinOp)
	if !ok {
		return
	}
	op := b.Op
	if !c.Val {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ,
			token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	x, y := g.p.res(b.X), g.p.res(b.Y)
	flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS,
		token.LEQ: token.GEQ, token.GEQ: token.LEQ}
	for _, s := range [][2]ssa.Value{{x, y}, {y, x}} {
		o := op
		if s[0] == y && s[0] != x {
			o = flip[op]
		}
		a, other := s[0], s[1]
		if n, ok := other.(*ssa.Const); ok && n.Value == nil && o == token.EQL && g.k.T[a] {
			g.decided[g.val(a)] = true
			continue
		}
		if isStringType(a.Type()) && g.k.T[a] && o == token.EQL {
			g.decided[g.val(a)] = true
			continue
		}
		l, neg := lenInside(g.p, a)
		if l == nil || !g.k.T[g.p.res(l)] {
			continue
		}
		l = g.p.res(l)
		o2 := o
		if neg {
			o2 = flip[o]
		}
		if isStringType(l.Type()) {
			n, isC := constInt(other)
			if o2 == token.EQL || !isC && (o2 == token.LSS || o2 == token.LEQ) || isC && (o2 == token.LSS && n <= 1 || o2 == token.LEQ && n <= 0) {
				g.decided[g.val(l)] = true
			}
			continue
		}
		// a list: a moving index has come to its end
		if _, isC := other.(*ssa.Const); !isC && (o2 == token.EQL || o2 == token.LEQ) {
			if _, isLen := other.(*ssa.Call); !isLen {
				g.decided[g.val(l)] = true
			}
		}
	}
}

// lenInside: len(l), len(l)-y, y-len(l)
func lenInside(p *cPath, v ssa.Value) (l ssa.Value, neg bool) {
	v = p.res(v)
	if l := lenArg(v); l != nil {
		return l, false
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.SUB || b.Op == token.ADD) {
		if l := lenArg(p.res(b.X)); l != nil {
			if _, isC := b.Y.(*ssa.Const); !isC {
				return l, false
			}
		}
		if l := lenArg(p.res(b.Y)); l != nil {
			return l, b.Op == token.SUB
		}
	}
	return nil, false
}

// decideLists: lists (and maps) the path knows to be empty, or to hold only words it knows
func (g *cGraph) decideLists(initial []ssa.Value) {
	k := g.k
	var facts []bFact
	for _, c := range g.p.conds {
		k.x.condFacts(c.V, c.Val, &facts)
	}
	for ph, v := range g.p.phi {
		if isSeq(ph.Type()) && isSeq(v.Type()) {
			a, b := k.x.lenOf(ph), k.x.lenOf(v)
			facts = append(facts, bFact{ge: a.add(b, -1)}, bFact{ge: b.add(a, -1)})
		}
	}
	lists := map[ssa.Value]bool{}
	for _, c := range g.p.conds {
		if b, ok := c.V.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if l := lenArg(g.p.res(o)); l != nil && !isStringType(l.Type()) {
					lists[l] = true
					lists[g.p.res(l)] = true
				}
			}
		}
	}
	for l := range lists {
		if !k.T[l] || g.decided[g.val(l)] {
			continue
		}
		if _, ok := l.Type().Underlying().(*types.Map); ok {
			for _, c := range g.p.conds {
				b, ok := c.V.(*ssa.BinOp)
				if ok && lenArg(b.X) == l && (b.Op == token.EQL && c.Val || (b.Op == token.NEQ || b.Op == token.GTR) && !c.Val) {
					if n, ok := constInt(b.Y); ok && n == 0 {
						g.decided[g.val(l)] = true
					}
				}
			}
			continue
		}
		if !isSeq(l.Type()) {
			continue
		}
		n := k.x.lenOf(l)
		for max := int64(0); max <= 2; max++ {
			if !k.x.implied(linC(max).add(n, -1), facts) {
				continue
			}
			all := true
			for i := int64(0); i < max; i++ {
				e := g.elems[g.val(l)][i]
				if e == nil || !g.decided[e] {
					all = false
				}
			}
			if all {
				g.decided[g.val(l)] = true
			}
			break
		}
	}
}

func (g *cGraph) covered(v ssa.Value) bool { return g.cov[v] || g.alive[v] }

func (g *cGraph) solve() {
	for v := range g.decided {
		g.cov[v] = true
	}
	lowConst := func(s *ssa.Slice) int64 {
		if s.Low == nil {
			return 0
		}
		n, ok := constInt(g.p.res(s.Low))
		if !ok {
			return -1
		}
		return n
	}
	// a phi of a header that names another value of the path is that value: handled by res
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value) {
			if !g.cov[v] {
				g.cov[v] = true
				ch = true
			}
		}
		// up
		for a, bs := range g.into {
			for _, b := range bs {
				if g.covered(g.val(b)) {
					mark(a)
				}
			}
		}
		for a, groups := range g.split {
			for _, outs := range groups {
				all := len(outs) > 0
				for _, o := range outs {
					if isStringType(o.Type()) {
						continue
					}
					if !g.covered(o) {
						all = false
					}
				}
				if all {
					one := false
					for _, o := range outs {
						if !isStringType(o.Type()) || g.covered(o) {
							one = true
						}
					}
					if one {
						mark(a)
					}
				}
			}
		}
		for a, ps := range g.parts {
			if g.cov[a] {
				continue
			}
			if isStringType(a.Type()) {
				all, open := !g.headLost(a, ps), false
				for _, q := range ps {
					if !g.covered(q) {
						all = false
					} else if q.(*ssa.Slice).High == nil {
						open = true
					}
				}
				if all && open {
					mark(a)
				}
				continue
			}
			for _, q := range ps {
				s := q.(*ssa.Slice)
				if s.High != nil || !g.covered(q) {
					continue
				}
				ok := true
				if n := lowConst(s); n >= 0 {
					for i := int64(0); i < n; i++ {
						if e := g.elems[a][i]; e == nil || !g.covered(e) {
							ok = false
						}
					}
				} else {
					for _, e := range g.ranged[a] {
						if !g.covered(e) {
							ok = false
						}
					}
				}
				if ok {
					mark(a)
				}
			}
		}
		// down
		for b, as := range g.from {
			for _, a := range as {
				if g.covered(g.val(a)) {
					if _, isTup := a.Type().(*types.Tuple); isTup {
						continue
					}
					if _, isA := a.(*ssa.Alloc); isA && !g.cov[a] {
						continue
					}
					if g.contains(a, b) {
						mark(b)
					}
				}
			}
		}
		for a, ps := range g.parts {
			if g.covered(a) {
				for _, q := range ps {
					mark(q)
				}
			}
		}
		for a, es := range g.elems {
			if g.covered(a) {
				for _, e := range es {
					mark(e)
				}
			}
		}
		for a, es := range g.ranged {
			for _, e := range es {
				u := e.(*ssa.UnOp)
				if g.cov[a] && !g.decided[a] || g.alive[a] && !g.k.rangeElem(u.X.(*ssa.IndexAddr)) {
					mark(e)
				}
			}
		}
	}
}

// contains: b holds nothing but what comes from a
func (g *cGraph) contains(a, b ssa.Value) bool {
	for _, o := range g.from[b] {
		if _, isTup := o.Type().(*types.Tuple); isTup {
			continue
		}
		if !g.covered(g.val(o)) {
			return false
		}
	}
	return true
}

// closure: a function literal that gives back what is left says nothing is left
// only where a list is known to be at its end
func (c *carry) closure(f *ssa.Function) (n int, drops []carryDrop) {
	k := &carryFn{c: c, f: f, x: c.w.bounds().fn(f), T: map[ssa.Value]bool{}}
	k.taint()
	if len(k.T) == 0 {
		return
	}
	rs := f.Signature.Results()
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i := 0; i < rs.Len(); i++ {
			if _, ok := rs.At(i).Type().(*types.Slice); !ok || !k.wordType(rs.At(i).Type()) {
				continue
			}
			n++
			cst, ok := ret.Results[i].(*ssa.Const)
			if !ok || cst.Value != nil {
				continue
			}
			p := &cPath{phi: map[*ssa.Phi]ssa.Value{}}
			g := &cGraph{k: k, p: p, rep: map[string]ssa.Value{}, from: map[ssa.Value][]ssa.Value{}, decided: map[ssa.Value]bool{}, elems: map[ssa.Value]map[int64]ssa.Value{}}
			for d := b; d != nil; d = d.Idom() {
				if len(d.Preds) != 1 {
					continue
				}
				pr := d.Preds[0]
				if ifi, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && pr.Succs[0] != pr.Succs[1] {
					c := cCond{ifi.Cond, pr.Succs[0] == d}
					p.conds = append(p.conds, c)
					g.decide(c)
				}
			}
			g.decideLists(nil)
			if len(g.decided) == 0 {
				drops = append(drops, carryDrop{"what is left", ret, nil})
			}
		}
	}
	return
}

func (c *carry) targets(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.w.Funcs {
		if c.w.inPkg(f, pkg) && c.wanted(f) && c.w.InModule(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return c.w.FuncKey(out[i]) < c.w.FuncKey(out[j]) })
	return out
}

func dumpCarry(w *World) {
	c := w.carry()
	for _, f := range c.targets("core/parser") {
		k := c.analyse(f)
		fmt.Printf("%s: %d paths, %d words, over=%v, dropOnFalse=%v\n", w.FuncKey(f), k.Paths, k.Words, k.Over, c.dropOnFalse[f])
		for _, d := range k.Drops {
			fmt.Printf("   DROP %s at %s\n", d.What, w.InstrPos(d.At))
			for _, t := range d.Trace {
				fmt.Printf("        %s\n", t)
			}
		}
		for h, m := range k.demoted {
			for v, at := range m {
				fmt.Printf("   demoted block %d %s %s: %s\n", h.Index, v.Name(), k.describe(v), at)
			}
		}
	}
}

func (k *carryFn) listOfWords(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isStringType(sl.Elem())
}

// headLost: what stands after a place that was looked for is taken out of a word, but
// what stands before that place is not looked at, and there may be something
func (g *cGraph) headLost(a ssa.Value, ps []ssa.Value) bool {
	for _, q := range ps {
		s := q.(*ssa.Slice)
		if s.Low == nil || s.High != nil {
			continue
		}
		var at ssa.Value
		var find func(v ssa.Value, d int)
		find = func(v ssa.Value, d int) {
			v = g.p.res(v)
			switch v := v.(type) {
			case *ssa.BinOp:
				if v.Op == token.ADD && d < 4 {
					find(v.X, d+1)
					find(v.Y, d+1)
				}
			case *ssa.Call:
				if n := fullName(v.Common()); n == "strings.Index" || n == "strings.IndexAny" || n == "strings.IndexByte" || n == "strings.IndexRune" {
					if g.val(v.Call.Args[0]) == a {
						at = v
					}
				}
			}
		}
		find(s.Low, 0)
		if at == nil {
			continue
		}
		ok := false
		for _, in := range g.p.instrs {
			if h, isS := in.(*ssa.Slice); isS && h.High != nil && g.p.res(h.High) == at && g.val(h.X) == a {
				ok = true
			}
		}
		for _, c := range g.p.conds {
			b, isB := c.V.(*ssa.BinOp)
			if !isB || g.p.res(b.X) != at {
				continue
			}
			n, isC := constInt(g.p.res(b.Y))
			if !isC {
				continue
			}
			switch {
			case b.Op == token.EQL && n == 0 && c.Val, b.Op == token.NEQ && n == 0 && !c.Val,
				b.Op == token.GTR && n == 0 && !c.Val, b.Op == token.LEQ && n == 0 && c.Val,
				b.Op == token.LSS && n == 1 && c.Val, b.Op == token.GEQ && n == 1 && !c.Val:
				ok = true
			}
		}
		if !ok {
			return true
		}
	}
	return false
}

// overwritten: settings that were gathered are not replaced by later ones
func (k *carryFn) overwritten(p *cPath) {
	own := map[ssa.Value]bool{}
	type fld struct {
		al ssa.Value
		f  int
	}
	used := map[fld]bool{}
	field := func(v ssa.Value) (fld, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return fld{}, false
		}
		al, ok := fa.X.(*ssa.Alloc)
		return fld{al, fa.Field}, ok
	}
	isNilOf := func(c cCond) (fld, bool) {
		b, ok := c.V.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != c.Val {
			return fld{}, false
		}
		x, y := b.X, b.Y
		if n, ok := x.(*ssa.Const); ok && n.Value == nil {
			x, y = y, x
		}
		if n, ok := y.(*ssa.Const); !ok || n.Value != nil {
			return fld{}, false
		}
		u, ok := x.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return fld{}, false
		}
		return field(u.X)
	}
	for _, c := range p.conds {
		if f, ok := isNilOf(c); ok {
			used[f] = true
		}
		// known to hold nothing at all
		if cl, ok := c.V.(*ssa.Call); ok && c.Val && len(cl.Call.Args) > 0 {
			if al, ok := cl.Call.Args[0].(*ssa.Alloc); ok {
				own[al] = true
			} else if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok {
				own[u.X] = true
			}
		}
	}
	for _, in := range p.instrs {
		switch y := in.(type) {
		case *ssa.Alloc:
			own[y] = true
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if _, ok := y.X.(*ssa.Alloc); ok {
					own[y.X] = true // read as a whole: handed on
				}
			}
		case *ssa.Store:
			if f, ok := field(y.Addr); ok {
				if _, isNil := y.Val.(*ssa.Const); !isNil && k.c.w.isNamed(y.Val.Type(), "core/model", "ParsedEnv") && !own[f.al] && !used[f] {
					d := carryDrop{"the settings gathered before", y, nil}
					for _, o := range k.Drops {
						if o.What == d.What {
							return
						}
					}
					k.Drops = append(k.Drops, d)
					return
				}
				used[f] = true
			}
			if _, ok := y.Addr.(*ssa.Alloc); ok {
				own[y.Addr] = true
			}
		case ssa.CallInstruction:
			for _, a := range y.Common().Args {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if f, ok := field(u.X); ok {
						if _, isB := y.Common().Value.(*ssa.Builtin); !isB {
							used[f] = true
						}
					}
				}
			}
		}
	}
}

// plin: a sum of a loop's variable and constants, on this path
func (k *carryFn) plin(p *cPath, v ssa.Value, ph *ssa.Phi, d int) lin {
	if v == ssa.Value(ph) {
		return k.x.lin(v)
	}
	v = p.res(v)
	if b, ok := v.(*ssa.BinOp); ok && d < 6 && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, isC := constInt(b.Y); isC && isInt(b.Type()) {
			n := int64(1)
			if b.Op == token.SUB {
				n = -1
			}
			return k.plin(p, b.X, ph, d+1).add(k.x.lin(b.Y), n)
		}
	}
	return k.x.lin(v)
}
