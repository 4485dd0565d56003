package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the order in which Go walks a map could get out. Each loop over a map
// (or over a list that is still in map order) is judged by what its turns do to
// what outlives them; lists filled in map order are followed until they are
// sorted.

type ordCls uint8

const (
	oInv ordCls = iota // the same in every turn
	oOwn               // an object of this turn alone
	oKey               // differs per turn, one-to-one with the key
	oDep               // depends on the turn
	oPos               // depends on the turns before it
)

func ordJoin(a, b ordCls) ordCls {
	if a == b {
		return a
	}
	if a < b {
		a, b = b, a
	}
	if a == oPos || b == oInv {
		return a
	}
	return oDep
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

type ordEff struct {
	At   ssa.Instruction
	What string
	Root ssa.Instruction // the innermost place
}

type ordering struct {
	w     *World
	fx    map[string][]ordEff
	busy  map[string]bool
	uret  map[*ssa.Function]map[int]string // results given in map order: where from
	uout  map[*ssa.Function]map[int]string // params through which a list in map order is given
	param map[string]bool                  // function|param analysed as a list in map order
	sorts map[string]bool
	Loops []ordLoop
	Bad   []ordBad
	work  []func()
	seen  map[string]bool
	Lists int
}

type ordLoop struct {
	F    *ssa.Function
	At   ssa.Instruction
	Over string
}

type ordBad struct {
	F     *ssa.Function
	At    ssa.Instruction
	What  string
	Trace []string
}

// ordCtx classifies the values of one function: the whole body (a callee, run once
// per turn) or the body of one loop.
type ordCtx struct {
	o    *ordering
	f    *ssa.Function
	B    map[*ssa.BasicBlock]bool // nil: the whole function
	h    *ssa.BasicBlock
	set  map[ssa.Value]ordCls // what is given
	cls  map[ssa.Value]ordCls
	web  map[ssa.Value]bool // values that carry what the turns gathered
	u    map[ssa.Value]bool // lists in map order (index loops over them)
	idx  ssa.Value          // index of an index loop
	anyC bool               // some condition differs between turns
	pend []ordEff           // out-params: appended to in map order

	filled []ssa.Value // lists filled by a counter
}

func (x *ordCtx) in(b *ssa.BasicBlock) bool { return x.B == nil || x.B[b] }

func (x *ordCtx) get(v ssa.Value) ordCls {
	if c, ok := x.set[v]; ok {
		return c
	}
	switch y := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return oInv
	case ssa.Instruction:
		if !x.in(y.Block()) {
			return oInv
		}
	}
	return x.cls[v]
}

// local: memory made in this turn
func (x *ordCtx) localAlloc(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && (x.in(a.Block()) || x.turnCell(a))
}

// turnCell: a variable that each turn writes as a whole before anything else, and that
// nothing outside the loop looks at (the loop variable itself)
func (x *ordCtx) turnCell(a *ssa.Alloc) bool {
	var first *ssa.Store
	for _, r := range *a.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		if !x.in(r.Block()) {
			return false
		}
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) && (first == nil || before(s, first)) {
			first = s
		}
	}
	if first == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); !dbg && r != ssa.Instruction(first) && !before(first, r) {
			return false
		}
	}
	return true
}

func (x *ordCtx) solve() {
	x.cls = map[ssa.Value]ordCls{}
	for changed := true; changed; {
		changed = false
		for _, b := range x.f.Blocks {
			if !x.in(b) {
				continue
			}
			for _, in := range b.Instrs {
				if iff, ok := in.(*ssa.If); ok {
					if x.get(iff.Cond) != oInv && !x.anyC {
						x.anyC = true
						changed = true
					}
					continue
				}
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if _, fixed := x.set[v]; fixed {
					continue
				}
				c := ordJoin(x.cls[v], x.eval(v))
				if c != x.cls[v] {
					x.cls[v] = c
					changed = true
				}
			}
		}
	}
}

func (x *ordCtx) eval(v ssa.Value) ordCls {
	switch y := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return oOwn
	case *ssa.MakeClosure:
		c := oInv
		for _, b := range y.Bindings {
			c = ordJoin(c, x.get(b))
		}
		if c == oInv {
			return oInv
		}
		return oOwn
	case *ssa.Phi:
		own, same := true, true
		c := oInv
		for _, e := range y.Edges {
			ec := x.get(e)
			c = ordJoin(c, ec)
			if k, isC := e.(*ssa.Const); ec != oOwn && !(isC && k.Value == nil) {
				own = false
			}
			if e != y.Edges[0] {
				same = false
			}
		}
		if c == oPos {
			return c
		}
		if own && c == oOwn {
			return oOwn
		}
		if c == oOwn && refType(y.Type()) {
			return oDep
		}
		if same {
			return c
		}
		if h := innermostLoop(y.Block()); h == y.Block() && h != x.h && c == oInv {
			// the counter of an inner loop that is the same in every turn
			if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && x.get(iff.Cond) == oInv {
				return oInv
			}
		}
		if x.anyC || c != oInv {
			return ordJoin(c, oDep)
		}
		return c
	case *ssa.BinOp:
		a, b := x.get(y.X), x.get(y.Y)
		if y.Op == token.ADD && isString(y.Type()) && (a == oKey && b == oInv || a == oInv && b == oKey) {
			return oKey
		}
		return x.mixed(a, b)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			return x.load(y)
		}
		return x.mixed(x.get(y.X), oInv)
	case *ssa.Slice:
		c := x.get(y.X)
		if x.u[y.X] {
			return oInv
		}
		lo, hi := oInv, oInv
		if y.Low != nil {
			lo = x.get(y.Low)
		}
		if y.High != nil {
			hi = x.get(y.High)
		}
		if c == oOwn && refType(y.Type()) {
			return oOwn
		}
		if p, ok := y.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			if c == oOwn {
				return oOwn
			}
		}
		if c == oKey && y.High == nil && lo == oInv {
			return oKey
		}
		return x.mixed(c, ordJoin(lo, hi))
	case *ssa.Lookup:
		m, k := x.get(y.X), x.get(y.Index)
		return x.elemOf(y.Type(), m, k)
	case *ssa.Next:
		return oInv
	case *ssa.Extract:
		if n, ok := y.Tuple.(*ssa.Next); ok {
			return x.nextCls(n, y)
		}
		if lk, ok := y.Tuple.(*ssa.Lookup); ok {
			if y.Index == 1 {
				return x.mixed(x.get(lk.X), x.get(lk.Index))
			}
			return x.elemOf(y.Type(), x.get(lk.X), x.get(lk.Index))
		}
		if cv, ok := y.Tuple.(*ssa.Call); ok {
			return x.callCls(&cv.Call, y.Type(), y.Index)
		}
		return x.get(y.Tuple)
	case *ssa.MakeInterface:
		return x.get(y.X)
	case *ssa.ChangeInterface:
		return x.get(y.X)
	case *ssa.ChangeType:
		return x.get(y.X)
	case *ssa.Convert:
		return x.get(y.X)
	case *ssa.TypeAssert:
		return x.get(y.X)
	case *ssa.FieldAddr:
		return x.get(y.X)
	case *ssa.Field:
		c := x.get(y.X)
		if c == oKey {
			return oDep
		}
		return c
	case *ssa.IndexAddr:
		b, i := x.get(y.X), x.get(y.Index)
		if x.u[y.X] && i == oPos {
			return oInv
		}
		if b == oOwn {
			return oOwn
		}
		return x.mixed(b, i)
	case *ssa.Index:
		return x.mixed(x.get(y.X), x.get(y.Index))
	case *ssa.Range:
		return x.get(y.X)
	case *ssa.Call:
		if _, tup := y.Type().(*types.Tuple); tup {
			return oInv
		}
		return x.callCls(&y.Call, y.Type(), 0)
	case *ssa.Select:
		return oDep
	}
	return oInv
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// mixed: a value computed from both
func (x *ordCtx) mixed(a, b ordCls) ordCls {
	c := ordJoin(a, b)
	if c == oInv || c == oPos {
		return c
	}
	return oDep
}

func (x *ordCtx) elemOf(t types.Type, m, k ordCls) ordCls {
	if m == oPos || k == oPos {
		return oPos
	}
	if m == oInv && k == oInv {
		return oInv
	}
	if tu, ok := t.(*types.Tuple); ok {
		_ = tu
		return oInv
	}
	if refType(t) && (m == oOwn || k == oKey) {
		return oOwn
	}
	return oDep
}

func (x *ordCtx) nextCls(n *ssa.Next, e *ssa.Extract) ordCls {
	if e.Index == 0 {
		return x.mixed(x.get(n.Iter), oInv)
	}
	return x.elemOf(e.Type(), x.get(n.Iter), x.get(n.Iter))
}

func (x *ordCtx) load(y *ssa.UnOp) ordCls {
	addr := y.X
	if ia, ok := addr.(*ssa.IndexAddr); ok && x.u[ia.X] && x.get(ia.Index) == oPos {
		if refType(y.Type()) {
			return oOwn
		}
		return oKey
	}
	root := addrRoot(addr)
	if al, ok := root.(*ssa.Alloc); ok {
		if x.localAlloc(al) {
			c := oInv
			var stores []ssa.Value
			escapes := false
			for _, r := range *al.Referrers() {
				switch u := r.(type) {
				case *ssa.Store:
					if u.Addr == al {
						stores = append(stores, u.Val)
					}
				case *ssa.UnOp:
				default:
					escapes = true
				}
			}
			for _, s := range stores {
				c = ordJoin(c, x.get(s))
			}
			if escapes || addr != ssa.Value(al) {
				c = x.mixed(c, oDep)
				if refType(y.Type()) && c != oPos {
					return oOwn
				}
			}
			return c
		}
		if addr == root && x.storedIn(al) {
			return oPos
		}
		return oInv
	}
	c := x.get(addr)
	switch c {
	case oOwn:
		if refType(y.Type()) {
			return oOwn
		}
		return oDep
	case oKey:
		return oDep
	}
	return c
}

func (x *ordCtx) storedIn(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al && x.in(s.Block()) {
			return true
		}
	}
	return false
}

func (x *ordCtx) callCls(c *ssa.CallCommon, t types.Type, idx int) ordCls {
	j := oInv
	recvOwn, hasKey := false, false
	vals := c.Args
	if c.IsInvoke() {
		vals = append([]ssa.Value{c.Value}, c.Args...)
	}
	for i, a := range vals {
		k := x.get(a)
		if i == 0 && k == oOwn {
			recvOwn = true
		}
		if k == oKey {
			hasKey = true
		}
		j = ordJoin(j, k)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if j == oPos {
				return oPos
			}
			first := x.get(c.Args[0])
			if k, isC := c.Args[0].(*ssa.Const); isC && k.Value == nil || first == oOwn {
				return oOwn
			}
			return x.mixed(j, oInv)
		case "len", "cap":
			if x.u[c.Args[0]] {
				return oInv
			}
		}
		return x.mixed(j, oInv)
	}
	if j == oInv || j == oPos {
		return j
	}
	if x.oneToOne(c) && hasKey {
		return oKey
	}
	if callee := c.StaticCallee(); callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "strings" {
		switch callee.Name() {
		case "TrimPrefix", "TrimSuffix":
			if x.get(c.Args[0]) == oKey && x.get(c.Args[1]) == oInv {
				return oKey
			}
		}
	}
	if refType(t) && (recvOwn || hasKey) {
		return oOwn
	}
	return oDep
}

// oneToOne: a lookup in a map that is kept one-to-one
func (x *ordCtx) oneToOne(c *ssa.CallCommon) bool {
	callee := c.StaticCallee()
	if callee == nil || !x.o.w.inMod[callee] {
		return false
	}
	k := "1:1 " + x.o.w.FuncKey(callee)
	return x.o.w.Memo(k, func() interface{} { return x.o.injectiveGetter(callee) }).(bool)
}

// injectiveGetter: the function gives the value of a map field which is only ever
// written together with its inverse, after the inverse was found without that value
func (o *ordering) injectiveGetter(f *ssa.Function) bool {
	var field *types.Var
	n := 0
	forEachInstr(f, func(in ssa.Instruction) {
		if lk, ok := in.(*ssa.Lookup); ok {
			n++
			if v := mapField(lk.X); v != nil {
				field = v
			}
		}
	})
	if n != 1 || field == nil || len(f.Blocks) > 3 {
		return false
	}
	ok := true
	ups := 0
	for _, g := range o.w.Funcs {
		forEachInstr(g, func(in ssa.Instruction) {
			up, isUp := in.(*ssa.MapUpdate)
			if !isUp || mapField(up.Map) != field {
				return
			}
			ups++
			inv := false
			forEachInstr(g, func(in2 ssa.Instruction) {
				up2, is2 := in2.(*ssa.MapUpdate)
				if !is2 || mapField(up2.Map) == nil || mapField(up2.Map) == field || up2.Key != up.Value || up2.Value != up.Key {
					return
				}
				forEachInstr(g, func(in3 ssa.Instruction) {
					lk, is3 := in3.(*ssa.Lookup)
					if is3 && lk.CommaOk && mapField(lk.X) == mapField(up2.Map) && lk.Index == up.Value && before(lk, up) {
						for _, b := range g.Blocks {
							iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
							if !isIf {
								continue
							}
							if e, isE := iff.Cond.(*ssa.Extract); isE && e.Tuple == lk && e.Index == 1 && panicsOnly(b.Succs[0], nil) {
								inv = true
							}
						}
					}
				})
			})
			ok = ok && inv
		})
	}
	return ok && ups > 0
}

func mapField(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field)
}

// panicsOnly: every way from the block ends in a panic
func panicsOnly(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen == nil {
		seen = map[*ssa.BasicBlock]bool{}
	}
	if seen[b] {
		return true
	}
	seen[b] = true
	if len(b.Succs) == 0 {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	for _, s := range b.Succs {
		if !panicsOnly(s, seen) {
			return false
		}
	}
	return true
}

// effects of the body on what outlives a turn that differ by the order of the turns
func (x *ordCtx) effects() []ordEff {
	var out []ordEff
	bad := func(in ssa.Instruction, what string) { out = append(out, ordEff{in, what, in}) }
	deep := func(in ssa.Instruction, e ordEff) { out = append(out, ordEff{in, e.What, e.Root}) }
	for _, b := range x.f.Blocks {
		if !x.in(b) || panicsOnly(b, nil) {
			continue
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				x.storeEff(y, bad)
			case *ssa.MapUpdate:
				x.mapEff(y, bad)
			case *ssa.Send:
				if x.get(y.Chan) != oOwn && x.get(y.X) != oInv {
					bad(in, "values are sent in map order")
				}
			case ssa.CallInstruction:
				x.callEff(y, bad, deep)
			}
		}
	}
	return out
}

func (x *ordCtx) storeEff(y *ssa.Store, bad func(ssa.Instruction, string)) {
	root := addrRoot(y.Addr)
	if al, ok := root.(*ssa.Alloc); ok && x.localAlloc(al) {
		return
	}
	if ia, ok := y.Addr.(*ssa.IndexAddr); ok && x.u[ia.X] {
		return // the list itself is rewritten in place
	}
	if ia, ok := y.Addr.(*ssa.IndexAddr); ok && x.nextFree(ia, x.web) {
		x.filled = append(x.filled, ia.X)
		return
	}
	if x.get(y.Addr) == oOwn && x.get(root) != oPos {
		return
	}
	if x.get(y.Addr) == oOwn {
		return
	}
	c := x.get(y.Val)
	if c == oInv {
		return
	}
	same := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && (u.X == y.Addr || sameExpr(u.X, y.Addr))
	}
	switch v := y.Val.(type) {
	case *ssa.BinOp:
		if !isString(v.Type()) && commutes(v.Op) && (same(v.X) && x.get(v.Y) != oPos || same(v.Y) && x.get(v.X) != oPos) {
			return
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && same(v.Call.Args[0]) {
			switch r := y.Addr.(type) {
			case *ssa.Parameter, *ssa.Alloc, *ssa.FreeVar:
				_ = r
				x.pend = append(x.pend, ordEff{y, "appended to in map order", y})
				return
			}
			bad(y, "a list that is kept is appended to in map order")
			return
		}
	}
	bad(y, "what is stored is that of the last turn")
}

func commutes(op token.Token) bool {
	switch op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
		return true
	}
	return false
}

func (x *ordCtx) mapEff(y *ssa.MapUpdate, bad func(ssa.Instruction, string)) {
	m := x.get(y.Map)
	if m == oOwn {
		return
	}
	k, v := x.get(y.Key), x.get(y.Value)
	lookup := func(e ssa.Value) bool {
		lk, ok := e.(*ssa.Lookup)
		if ex, isE := e.(*ssa.Extract); isE && ex.Index == 0 {
			lk, ok = ex.Tuple.(*ssa.Lookup)
		}
		return ok && (lk.X == y.Map || sameExpr(lk.X, y.Map)) && (lk.Index == y.Key || sameExpr(lk.Index, y.Key))
	}
	switch {
	case k == oPos || v == oPos:
		bad(y, "what is put into the map depends on the turns before")
		return
	case k == oKey, v == oInv:
		return
	}
	if bo, ok := y.Value.(*ssa.BinOp); ok && !isString(bo.Type()) && commutes(bo.Op) && (lookup(bo.X) || lookup(bo.Y)) {
		return
	}
	if c, ok := y.Value.(*ssa.Call); ok {
		if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && lookup(c.Call.Args[0]) {
			bad(y, "a list that is kept is appended to in map order")
			return
		}
	}
	if v == oOwn {
		// put in only if it was not there: the same whichever turn does it
		for _, b := range x.f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !b.Dominates(y.Block()) {
				continue
			}
			if condLooksUp(iff.Cond, lookup, 0) {
				return
			}
		}
	}
	bad(y, "several turns can write the same entry, the last one wins")
}

func condLooksUp(v ssa.Value, lookup func(ssa.Value) bool, depth int) bool {
	if depth > 4 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Extract:
		if lk, ok := y.Tuple.(*ssa.Lookup); ok {
			return lookup(lk)
		}
		return false
	case *ssa.Lookup:
		return lookup(y)
	case *ssa.BinOp:
		return condLooksUp(y.X, lookup, depth+1) || condLooksUp(y.Y, lookup, depth+1)
	case *ssa.UnOp:
		return condLooksUp(y.X, lookup, depth+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if condLooksUp(e, lookup, depth+1) {
				return true
			}
		}
	}
	return false
}

func (x *ordCtx) callEff(ci ssa.CallInstruction, bad func(ssa.Instruction, string), deep func(ssa.Instruction, ordEff)) {
	c := ci.Common()
	vals := c.Args
	if c.IsInvoke() {
		vals = append([]ssa.Value{c.Value}, c.Args...)
	}
	j := oInv
	for _, a := range vals {
		j = ordJoin(j, x.get(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			if j != oInv {
				bad(ci, "printed in map order")
			}
		case "copy":
			if x.get(c.Args[0]) != oOwn && x.get(c.Args[1]) != oInv {
				bad(ci, "what is copied is that of the last turn")
			}
		case "delete":
			if x.get(c.Args[1]) == oPos {
				bad(ci, "what is deleted depends on the turns before")
			}
		}
		return
	}
	if !c.IsInvoke() {
		switch c.Value.(type) {
		case *ssa.Function, *ssa.MakeClosure:
		default:
			if x.get(c.Value) != oInv {
				bad(ci, "functions are called in map order")
				return
			}
		}
	}
	if j == oInv {
		if mc, ok := c.Value.(*ssa.MakeClosure); !ok || x.get(mc) == oInv {
			return
		}
	}
	if callee := c.StaticCallee(); callee != nil && !x.o.w.inMod[callee] {
		x.libEff(ci, callee, bad)
		return
	}
	if c.IsInvoke() {
		if what := outMethod(c.Method); what != "" && x.get(c.Value) != oOwn {
			args := oInv
			for _, a := range c.Args {
				args = ordJoin(args, x.get(a))
			}
			if args != oInv {
				bad(ci, what)
			}
			return
		}
	}
	done := map[string]bool{}
	for _, g := range x.o.w.Callees(c) {
		if len(g.Blocks) == 0 {
			continue
		}
		set := map[ssa.Value]ordCls{}
		for i, p := range g.Params {
			a := argOf(c, g, i)
			if a == nil {
				set[p] = oDep
				continue
			}
			set[p] = x.get(a)
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for i, fv := range g.FreeVars {
				if i < len(mc.Bindings) {
					set[fv] = x.get(mc.Bindings[i])
				}
			}
		}
		for _, e := range x.o.effectsOf(g, set, 0) {
			if !done[e.What] {
				done[e.What] = true
				deep(ci, e)
			}
		}
	}
}

func outMethod(m *types.Func) string {
	switch m.Name() {
	case "Print", "Error", "Println", "Printf", "Write", "WriteString":
		if m.Type().(*types.Signature).Params().Len() > 0 {
			return "printed in map order"
		}
	}
	return ""
}

func (x *ordCtx) libEff(ci ssa.CallInstruction, callee *ssa.Function, bad func(ssa.Instruction, string)) {
	c := ci.Common()
	args := oInv
	for _, a := range c.Args {
		args = ordJoin(args, x.get(a))
	}
	pkg := ""
	if callee.Pkg != nil {
		pkg = callee.Pkg.Pkg.Path()
	} else if callee.Object() != nil && callee.Object().Pkg() != nil {
		pkg = callee.Object().Pkg().Path()
	}
	n := callee.Name()
	if callee.Signature.Recv() != nil {
		if x.get(c.Args[0]) == oOwn {
			return
		}
		rest := oInv
		for _, a := range c.Args[1:] {
			rest = ordJoin(rest, x.get(a))
		}
		switch {
		case strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Print"):
			if rest != oInv {
				bad(ci, "written in map order")
			}
		case pkg == "os/exec":
			bad(ci, "programs are run in map order")
		}
		return
	}
	switch {
	case pkg == "fmt" && strings.HasPrefix(n, "Print"):
		if args != oInv {
			bad(ci, "printed in map order")
		}
	case pkg == "fmt" && strings.HasPrefix(n, "Fprint"), pkg == "io" && n == "WriteString":
		if args != oInv && x.get(c.Args[0]) != oOwn {
			bad(ci, "written in map order")
		}
	case pkg == "log":
		bad(ci, "logged in map order")
	}
}

func (o *ordering) effectsOf(g *ssa.Function, set map[ssa.Value]ordCls, depth int) []ordEff {
	var ks []string
	for _, p := range g.Params {
		ks = append(ks, fmt.Sprint(set[p]))
	}
	for _, p := range g.FreeVars {
		ks = append(ks, fmt.Sprint(set[p]))
	}
	key := o.w.FuncKey(g) + "|" + strings.Join(ks, ",")
	if e, ok := o.fx[key]; ok {
		return e
	}
	if o.busy[key] {
		return nil
	}
	o.busy[key] = true
	defer delete(o.busy, key)
	x := &ordCtx{o: o, f: g, set: set, u: map[ssa.Value]bool{}, web: map[ssa.Value]bool{}}
	x.solve()
	es := x.effects()
	for _, e := range x.pend {
		es = append(es, ordEff{e.At, "a list is appended to in map order", e.At})
	}
	o.fx[key] = es
	return es
}

// --- loops

func (o *ordering) bad(f *ssa.Function, at ssa.Instruction, what string, trace ...string) {
	k := o.w.FuncKey(f) + "|" + what + "|" + o.w.InstrPos(at)
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	o.Bad = append(o.Bad, ordBad{f, at, what, trace})
}

// loop judges one loop whose turns come in any order
func (o *ordering) loop(f *ssa.Function, h *ssa.BasicBlock, at ssa.Instruction, over string, prep func(x *ordCtx)) {
	lk := o.w.FuncKey(f) + "|loop|" + fmt.Sprint(h.Index) + over
	if o.seen[lk] {
		return
	}
	o.seen[lk] = true
	B := loopBlocks(h)
	if B == nil {
		return
	}
	o.Loops = append(o.Loops, ordLoop{f, at, over})
	x := &ordCtx{o: o, f: f, B: B, h: h, set: map[ssa.Value]ordCls{}, u: map[ssa.Value]bool{}, web: map[ssa.Value]bool{}}
	prep(x)
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if _, given := x.set[ph]; !given {
				x.set[ph] = oPos
			}
		}
	}
	x.solve()
	lists := x.webs(f, at)
	x.clashes(at, func(in ssa.Instruction, what string) {
		o.bad(f, in, what, fmt.Sprintf("the loop over %s at %s", over, o.w.InstrPos(at)))
	})
	for _, e := range x.effects() {
		o.bad(f, e.At, e.What, fmt.Sprintf("the loop over %s at %s, done at %s", over, o.w.InstrPos(at), o.w.InstrPos(e.Root)))
	}
	x.exits(f, at, over)
	for _, v := range lists {
		o.follow(f, v, h)
	}
	for _, v := range x.filled {
		o.follow(f, v, h)
	}
	for _, p := range x.pend {
		a := p.At.(*ssa.Store).Addr
		o.follow(f, a, h)
	}
}

// clashes: a turn touches entries of a map that are those of another turn
func (x *ordCtx) clashes(at ssa.Instruction, bad func(ssa.Instruction, string)) {
	type access struct {
		m, k  ssa.Value
		in    ssa.Instruction
		write bool
	}
	var as []access
	for _, b := range x.f.Blocks {
		if !x.in(b) || panicsOnly(b, nil) {
			continue
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				as = append(as, access{y.Map, y.Key, in, true})
			case *ssa.Lookup:
				if _, isMap := y.X.Type().Underlying().(*types.Map); isMap {
					as = append(as, access{y.X, y.Index, in, false})
				}
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					as = append(as, access{y.Call.Args[0], y.Call.Args[1], in, true})
				}
			}
		}
	}
	same := sameVal
	varies := func(k ssa.Value) bool { c := x.get(k); return c == oKey || c == oDep || c == oOwn }
	for i, a := range as {
		if !a.write || x.get(a.m) == oOwn || !varies(a.k) {
			continue
		}
		for j, b := range as {
			if i != j && same(a.m, b.m) && varies(b.k) && !same(a.k, b.k) && (j > i || !b.write) {
				bad(a.in, "a turn touches the entries of other turns in a map")
				break
			}
		}
		if rg, ok := at.(*ssa.Range); ok && same(rg.X, a.m) {
			own := false
			if e, isE := a.k.(*ssa.Extract); isE {
				if n, isN := e.Tuple.(*ssa.Next); isN && n.Iter == ssa.Value(rg) {
					own = true
				}
			}
			if !own {
				bad(a.in, "the map is changed at another place while it is walked")
			}
		}
	}
}

// sameVal: two expressions of a turn with the same value
func sameVal(a, b ssa.Value) bool {
	if a == b || sameExpr(a, b) {
		return true
	}
	switch x := a.(type) {
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X) && sameVal(x.Y, y.Y)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() || y.Call.IsInvoke() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		switch f := x.Call.Value.(type) {
		case *ssa.Builtin:
			if g, isB := y.Call.Value.(*ssa.Builtin); !isB || f.Name() != "len" || g.Name() != "len" {
				return false
			}
		case *ssa.Function:
			if y.Call.Value != ssa.Value(f) {
				return false
			}
			switch libPkg(f) {
			case "strings", "path/filepath", "strconv", "unicode/utf8":
			default:
				return false
			}
		default:
			return false
		}
		for i := range x.Call.Args {
			if !sameVal(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// webs: what the turns gather in variables
func (x *ordCtx) webs(f *ssa.Function, at ssa.Instruction) (lists []ssa.Value) {
	for _, in := range x.h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph == x.idx || x.set[ph] != oPos {
			continue
		}
		web := map[ssa.Value]bool{ph: true}
		appended, text := false, false
		for changed := true; changed; {
			changed = false
			for b := range x.B {
				for _, in := range b.Instrs {
					v, isV := in.(ssa.Value)
					if !isV || web[v] {
						continue
					}
					switch y := in.(type) {
					case *ssa.Phi:
						if b == x.h {
							continue
						}
						for _, e := range y.Edges {
							if web[e] {
								web[v] = true
								changed = true
							}
						}
					case *ssa.Call:
						if bi, isB := y.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" && web[y.Call.Args[0]] {
							web[v] = true
							appended = true
							changed = true
						}
					case *ssa.BinOp:
						if web[y.X] != web[y.Y] && (y.Op == token.ADD || commutes(y.Op)) && types.Identical(y.Type(), ph.Type()) {
							if y.Op == token.SUB && web[y.Y] {
								continue
							}
							web[v] = true
							changed = true
							if isString(y.Type()) {
								text = true
							}
						}
					case *ssa.UnOp:
						if y.Op == token.NOT && web[y.X] {
							continue
						}
					}
				}
			}
		}
		for v := range web {
			x.web[v] = true
		}
		// what else can become the value
		var incoming []ssa.Value
		for v := range web {
			p, isP := v.(*ssa.Phi)
			if !isP {
				continue
			}
			for i, e := range p.Edges {
				if web[e] || p == ph && !x.B[ph.Block().Preds[i]] {
					continue
				}
				incoming = append(incoming, e)
			}
		}
		used := x.usedOutside(ph)
		flag := true
		var first string
		for i, e := range incoming {
			s := e.Name()
			if k, isC := e.(*ssa.Const); isC {
				s = k.String()
			}
			if i == 0 {
				first = s
			}
			if s != first || x.get(e) != oInv {
				flag = false
			}
		}
		flag = flag || x.andOr(web, incoming)
		minmax := map[ssa.Value]bool{}
		for v := range web {
			for _, r := range *v.Referrers() {
				if bo, isB := r.(*ssa.BinOp); isB && (bo.Op == token.LSS || bo.Op == token.GTR || bo.Op == token.LEQ || bo.Op == token.GEQ) {
					other := bo.X
					if web[bo.X] {
						other = bo.Y
					}
					for _, e := range incoming {
						if sameVal(e, other) {
							minmax[bo] = true
						}
					}
				}
			}
		}
		// anything else that looks at what was gathered so far
		for v := range web {
			for _, r := range *v.Referrers() {
				if !x.B[r.Block()] || web2(r, web) || minmaxOnly(r, minmax) {
					continue
				}
				if ia, isIA := r.(*ssa.IndexAddr); isIA && x.nextFree(ia, web) {
					continue
				}
				switch y := r.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.Call:
					if panicsOnly(y.Block(), nil) {
						continue
					}
				case *ssa.BinOp:
					// only conditions that decide about a panic
					if flag && len(incoming) > 0 {
						// "was it found" in front of the same assignment is harmless
					}
				}
				if x.condOnly(r, web) {
					continue
				}
				x.o.bad(f, r, "what a turn does depends on the turns before it", fmt.Sprintf("the loop at %s", x.o.w.InstrPos(at)))
			}
		}
		if !used {
			continue
		}
		switch {
		case text:
			x.o.bad(f, at, "a text is put together in map order: "+varName(ph))
		case len(incoming) > 0 && !flag && len(minmax) == 0:
			x.o.bad(f, at, "the value of some turn is kept, which one depends on the order: "+varName(ph))
		case appended:
			lists = append(lists, ph)
		}
	}
	return
}

// andOr: the web is `w = w && e` (or `w || e`) in every turn
func (x *ordCtx) andOr(web map[ssa.Value]bool, incoming []ssa.Value) bool {
	all := map[ssa.Value]bool{}
	for v := range web {
		all[v] = true
	}
	for work := append([]ssa.Value(nil), incoming...); len(work) > 0; {
		v := work[0]
		work = work[1:]
		if ph, ok := v.(*ssa.Phi); ok && x.B[ph.Block()] && isBoolT(ph.Type()) && !all[ph] {
			all[ph] = true
			work = append(work, ph.Edges...)
		}
	}
	want := ""
	for v := range all {
		ph, ok := v.(*ssa.Phi)
		if !ok || !isBoolT(ph.Type()) {
			return false
		}
		if ph.Block() == x.h {
			continue
		}
		for i, e := range ph.Edges {
			if all[e] {
				continue
			}
			if k, isC := e.(*ssa.Const); isC {
				if want != "" && want != k.String() {
					return false
				}
				want = k.String()
			}
			_ = i
		}
	}
	if want == "" {
		return false
	}
	for v := range all {
		ph := v.(*ssa.Phi)
		if ph.Block() == x.h {
			continue
		}
		for i, e := range ph.Edges {
			if _, isC := e.(*ssa.Const); all[e] || isC {
				continue
			}
			if x.get(e) == oPos {
				return false
			}
			// comes in only where the web is the other constant
			p := ph.Block().Preds[i]
			found := false
			for d := p; d != nil && x.B[d]; d = d.Idom() {
				q := d.Idom()
				if q == nil {
					break
				}
				iff, isIf := q.Instrs[len(q.Instrs)-1].(*ssa.If)
				if isIf && web[iff.Cond] && len(d.Preds) == 1 {
					if q.Succs[0] == d && strings.HasPrefix(want, "false") || q.Succs[1] == d && strings.HasPrefix(want, "true") {
						found = true
					}
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// nextFree: the counter is used to put the next element into a list
func (x *ordCtx) nextFree(ia *ssa.IndexAddr, web map[ssa.Value]bool) bool {
	if !web[ia.Index] || !refSlice(ia.X.Type()) || x.get(ia.X) != oInv {
		return false
	}
	for _, r := range *ia.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(ia) {
			return false
		}
	}
	return true
}

func varName(v *ssa.Phi) string {
	if v.Comment != "" {
		return v.Comment
	}
	return v.Name()
}

func web2(r ssa.Instruction, web map[ssa.Value]bool) bool {
	v, ok := r.(ssa.Value)
	return ok && web[v]
}

func minmaxOnly(r ssa.Instruction, m map[ssa.Value]bool) bool {
	v, ok := r.(ssa.Value)
	return ok && m[v]
}

// condOnly: the instruction only decides whether the same constant is assigned again
// (`found || f(k)`), or whether to panic
func (x *ordCtx) condOnly(r ssa.Instruction, web map[ssa.Value]bool) bool {
	iff, ok := r.(*ssa.If)
	if ok {
		// a branch on a flag that was gathered: nothing but the flag differs by it
		for _, s := range iff.Block().Succs {
			if panicsOnly(s, nil) {
				return true
			}
		}
		t, e := iff.Block().Succs[0], iff.Block().Succs[1]
		only := func(b, join *ssa.BasicBlock) bool {
			return len(b.Succs) == 1 && b.Succs[0] == join && len(b.Preds) == 1
		}
		pure := func(b *ssa.BasicBlock) bool {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.BinOp, *ssa.UnOp, *ssa.Lookup, *ssa.Extract, *ssa.FieldAddr, *ssa.Field, *ssa.DebugRef:
				case *ssa.Call:
					if cl := y.Call.StaticCallee(); cl == nil || x.o.w.inMod[cl] {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
		if only(t, e) {
			return pure(t)
		}
		if only(e, t) {
			return pure(e)
		}
		return pure(t) && pure(e)
	}
	return false
}

func (x *ordCtx) usedOutside(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !x.B[r.Block()] {
			return true
		}
	}
	return false
}

// exits: ways out of the loop before its end
func (x *ordCtx) exits(f *ssa.Function, at ssa.Instruction, over string) {
	for b := range x.B {
		for _, s := range b.Succs {
			if x.B[s] || b == x.h || panicsOnly(s, nil) {
				continue
			}
			last := b.Instrs[len(b.Instrs)-1]
			if x.uniqueKey(b) {
				continue
			}
			// what was done before leaving
			if x.anyEffect() {
				x.o.bad(f, last, "the loop is left early, what was done till then depends on the order", "the loop over "+over+" at "+x.o.w.InstrPos(at))
				continue
			}
			// what is given
			for _, v := range x.leaving(b, s) {
				if x.get(v) != oInv {
					x.o.bad(f, last, "the loop is left early with a value that depends on the order", "the loop over "+over+" at "+x.o.w.InstrPos(at))
					break
				}
			}
		}
	}
}

// leaving: the values of the loop used after leaving it through b -> s
func (x *ordCtx) leaving(b, s *ssa.BasicBlock) (out []ssa.Value) {
	seen := map[*ssa.BasicBlock]bool{}
	idx := 0
	for i, p := range s.Preds {
		if p == b {
			idx = i
		}
	}
	for _, in := range s.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			out = append(out, ph.Edges[idx])
		}
	}
	work := []*ssa.BasicBlock{s}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[c] || x.B[c] {
			continue
		}
		seen[c] = true
		for _, in := range c.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if y, ok := (*op).(ssa.Instruction); ok && x.B[y.Block()] {
					out = append(out, *op)
				}
			}
		}
		work = append(work, c.Succs...)
	}
	return
}

// anyEffect: the loop does something that outlives it
func (x *ordCtx) anyEffect() bool {
	if len(x.pend) > 0 {
		return true
	}
	for v := range x.web {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == x.h && x.usedOutside(ph) {
			for _, e := range ph.Edges {
				if e != ssa.Value(ph) && x.web[e] {
					return true
				}
			}
		}
	}
	for b := range x.B {
		if panicsOnly(b, nil) {
			continue
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if al, ok := addrRoot(y.Addr).(*ssa.Alloc); ok && x.localAlloc(al) {
					continue
				}
				return true
			case *ssa.MapUpdate:
				if x.get(y.Map) != oOwn || !x.localMap(y.Map) {
					return true
				}
			case ssa.CallInstruction:
				if bi, ok := y.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					return true
				}
				for _, g := range x.o.w.Callees(y.Common()) {
					if x.o.w.mayWrite(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *ordCtx) localMap(v ssa.Value) bool {
	m, ok := v.(*ssa.MakeMap)
	return ok && x.in(m.Block())
}

// mayWrite: the function, or what it calls, writes memory it did not make itself
func (w *World) mayWrite(f *ssa.Function) bool {
	all := w.Memo("mayWrite", func() interface{} {
		m := map[*ssa.Function]bool{}
		for changed := true; changed; {
			changed = false
			for g := range w.inMod {
				if m[g] || len(g.Blocks) == 0 {
					continue
				}
				wr := false
				forEachInstr(g, func(in ssa.Instruction) {
					switch y := in.(type) {
					case *ssa.Store:
						if _, ok := addrRoot(y.Addr).(*ssa.Alloc); !ok {
							wr = true
						}
					case *ssa.MapUpdate:
						if _, ok := y.Map.(*ssa.MakeMap); !ok {
							wr = true
						}
					case ssa.CallInstruction:
						if bi, ok := y.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							wr = true
						}
						for _, h := range w.Callees(y.Common()) {
							if m[h] {
								wr = true
							}
						}
						if c := y.Common().StaticCallee(); c != nil && !w.inMod[c] && c.Pkg != nil {
							switch c.Pkg.Pkg.Path() {
							case "fmt":
								wr = wr || strings.HasPrefix(c.Name(), "Print") || strings.HasPrefix(c.Name(), "Fprint")
							case "os/exec":
								wr = wr || c.Name() != "LookPath" && c.Name() != "Command"
							}
						}
					}
				})
				if wr {
					m[g] = true
					changed = true
				}
			}
		}
		return m
	}).(map[*ssa.Function]bool)
	return all[f]
}

// uniqueKey: the block is reached only for the one turn whose key is a given one
func (x *ordCtx) uniqueKey(b *ssa.BasicBlock) bool {
	for d := b; d != nil && x.B[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || !x.B[p] {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		a, c := x.get(bo.X), x.get(bo.Y)
		if !(a == oKey && c == oInv || a == oInv && c == oKey) {
			continue
		}
		if bo.Op == token.EQL && p.Succs[0] == d && len(d.Preds) == 1 || bo.Op == token.NEQ && p.Succs[1] == d && len(d.Preds) == 1 {
			return true
		}
	}
	// the branch itself
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if bo, isB := iff.Cond.(*ssa.BinOp); isB {
			a, c := x.get(bo.X), x.get(bo.Y)
			if a == oKey && c == oInv || a == oInv && c == oKey {
				return bo.Op == token.EQL && !x.B[b.Succs[0]] || bo.Op == token.NEQ && !x.B[b.Succs[1]]
			}
		}
	}
	return false
}

// --- lists in map order

// follow: from the end of the loop (or the call) on, the list is in map order
func (o *ordering) follow(f *ssa.Function, v ssa.Value, from *ssa.BasicBlock) {
	o.followFrom(f, v, from, 0, fmt.Sprintf("filled in map order at %s", o.w.Pos(v.Pos())))
}

type ordFamily struct {
	vals  map[ssa.Value]bool
	cells map[ssa.Value]bool
}

func (o *ordering) family(f *ssa.Function, v ssa.Value) *ordFamily {
	fam := &ordFamily{map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok && refSlice(p.Elem()) {
		fam.cells[v] = true
	} else {
		fam.vals[v] = true
	}
	for changed := true; changed; {
		changed = false
		add := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				changed = true
			}
		}
		forEachInstr(f, func(in ssa.Instruction) {
			switch y := in.(type) {
			case *ssa.Phi:
				for _, e := range y.Edges {
					if fam.vals[e] {
						add(fam.vals, y)
					}
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					for _, a := range y.Call.Args {
						if fam.vals[a] {
							add(fam.vals, y)
						}
					}
				}
			case *ssa.ChangeType:
				if fam.vals[y.X] {
					add(fam.vals, y)
				}
			case *ssa.MakeInterface:
				if fam.vals[y.X] {
					add(fam.vals, y)
				}
			case *ssa.Convert:
				if fam.vals[y.X] {
					add(fam.vals, y)
				}
			case *ssa.Slice:
				if fam.vals[y.X] && y.Low == nil && y.High == nil {
					add(fam.vals, y)
				}
			case *ssa.UnOp:
				if y.Op == token.MUL && fam.cells[y.X] {
					add(fam.vals, y)
				}
			case *ssa.Store:
				if fam.vals[y.Val] {
					switch y.Addr.(type) {
					case *ssa.Alloc, *ssa.FreeVar:
						add(fam.cells, y.Addr)
					}
				}
			}
		})
	}
	return fam
}

func refSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (o *ordering) followFrom(f *ssa.Function, v ssa.Value, from *ssa.BasicBlock, idx int, why string) {
	key := fmt.Sprintf("%s|follow|%s|%d|%d", o.w.FuncKey(f), v.Name(), from.Index, idx)
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	o.Lists++
	fam := o.family(f, v)
	src := map[*ssa.BasicBlock]bool{}
	if idx == 0 {
		src = loopBlocks(from)
	}
	o.reach(f, fam, from, idx, func(in ssa.Instruction) {
		if src != nil && src[in.Block()] && idx == 0 {
			return
		}
		o.use(f, fam, in, why)
	})
}

// reach: the instructions that can be reached while the list is not sorted
func (o *ordering) reach(f *ssa.Function, fam *ordFamily, from *ssa.BasicBlock, idx int, visit func(ssa.Instruction)) (ret bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if o.sorter(in, fam) {
				return
			}
			if visit != nil {
				visit(in)
			}
			if _, ok := in.(*ssa.Return); ok {
				ret = true
			}
		}
		for k, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (shortList(iff.Cond, fam, k == 0) || foundSorted(iff.Cond, fam, k == 0)) {
				continue
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	if idx == 0 {
		seen[from] = true
	}
	walk(from, idx)
	return
}

// shortList: the branch is taken only for a list of at most one element
func shortList(cond ssa.Value, fam *ordFamily, val bool) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, a, b := bo.Op, bo.X, bo.Y
	l := lenArg(a)
	k, isK := constInt(b)
	if l == nil {
		l = lenArg(b)
		k, isK = constInt(a)
		op = flip(op)
	}
	if l == nil || !isK || !fam.vals[l] {
		return false
	}
	if !val {
		op = negate(op)
	}
	switch op {
	case token.EQL:
		return k <= 1
	case token.LSS:
		return k <= 2
	case token.LEQ:
		return k <= 1
	}
	return false
}

// foundSorted: the branch is taken only for a list that is sorted already
func foundSorted(cond ssa.Value, fam *ordFamily, val bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return foundSorted(u.X, fam, !val)
	}
	c, ok := cond.(*ssa.Call)
	return ok && val && asksSorted(&c.Call) && fam.vals[c.Call.Args[0]]
}

func asksSorted(c *ssa.CallCommon) bool {
	callee := c.StaticCallee()
	if callee == nil || len(c.Args) == 0 {
		return false
	}
	n := callee.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch libPkg(callee) {
	case "sort":
		switch n {
		case "StringsAreSorted", "IntsAreSorted", "SliceIsSorted", "IsSorted":
			return true
		}
	case "slices":
		return strings.HasPrefix(n, "IsSorted")
	}
	return false
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// sorter: the instruction puts the list into an order of its own
func (o *ordering) sorter(in ssa.Instruction, fam *ordFamily) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, isDefer := in.(*ssa.Defer); isDefer {
		return false
	}
	c := ci.Common()
	callee := c.StaticCallee()
	if callee == nil || len(c.Args) == 0 {
		return false
	}
	given := -1
	for i, a := range c.Args {
		if fam.vals[a] || fam.cells[a] {
			given = i
		}
	}
	if given < 0 {
		return false
	}
	if !o.w.inMod[callee] {
		return given == 0 && libSort(callee)
	}
	if len(callee.Blocks) == 0 || given >= len(callee.Params) {
		return false
	}
	k := fmt.Sprintf("%s|%d", o.w.FuncKey(callee), given)
	if r, ok := o.sorts[k]; ok {
		return r
	}
	o.sorts[k] = false
	cf := o.family(callee, callee.Params[given])
	r := !o.reach(callee, cf, callee.Blocks[0], -0, nil)
	o.sorts[k] = r
	return r
}

func libPkg(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func libSort(f *ssa.Function) bool {
	n := f.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch libPkg(f) {
	case "sort":
		switch n {
		case "Strings", "Ints", "Float64s", "Slice", "SliceStable", "Sort", "Stable":
			return true
		}
	case "slices":
		return strings.HasPrefix(n, "Sort")
	}
	return false
}

// use judges one use of a list that is still in map order
func (o *ordering) use(f *ssa.Function, fam *ordFamily, in ssa.Instruction, why string) {
	has := func(v ssa.Value) bool { return v != nil && fam.vals[v] }
	switch y := in.(type) {
	case *ssa.IndexAddr:
		if !has(y.X) {
			return
		}
		h := innermostLoop(y.Block())
		for h != nil {
			if ix := loopIndex(h, y.Index); ix != nil {
				o.loop(f, h, y, "a list in map order", func(x *ordCtx) {
					x.idx = ix
					x.set[ix] = oPos
					for v := range fam.vals {
						x.u[v] = true
					}
					forEachInstr(f, func(in ssa.Instruction) {
						if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == y.Index {
							if refSlice(ia.X.Type()) && o.unordered(f, ia.X) {
								x.u[ia.X] = true
							}
						}
					})
				})
				return
			}
			h = outerLoop(h)
		}
		o.bad(f, in, "one element of a list in map order is taken", why)
	case *ssa.Index:
		if has(y.X) {
			o.bad(f, in, "one element of a list in map order is taken", why)
		}
	case *ssa.Slice:
		if has(y.X) && (y.Low != nil || y.High != nil) {
			o.bad(f, in, "a part of a list in map order is taken", why)
		}
	case *ssa.Return:
		for i, r := range y.Results {
			if has(r) {
				o.returned(f, i, in, why)
			}
		}
	case *ssa.Store:
		if has(y.Val) && !fam.cells[y.Addr] {
			if p, ok := y.Addr.(*ssa.Parameter); ok {
				o.given(f, p, in, why)
				return
			}
			o.bad(f, in, "a list is kept in map order", why)
		}
		if p, ok := y.Addr.(*ssa.Parameter); ok && fam.cells[p] && has(y.Val) {
			o.given(f, p, in, why)
		}
	case *ssa.MapUpdate:
		if has(y.Value) {
			o.bad(f, in, "a list is kept in map order", why)
		}
	case *ssa.Send:
		if has(y.X) {
			o.bad(f, in, "a list is sent in map order", why)
		}
	case ssa.CallInstruction:
		o.callUse(f, fam, y, why)
	}
}

// unordered: the list is one that was found to be in map order
func (o *ordering) unordered(f *ssa.Function, v ssa.Value) bool {
	return o.seen["u|"+o.w.FuncKey(f)+"|"+v.Name()]
}

func outerLoop(h *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	bestN := 1 << 30
	for _, g := range h.Parent().Blocks {
		if g == h {
			continue
		}
		l := loopBlocks(g)
		if l != nil && l[h] && len(l) < bestN {
			best, bestN = g, len(l)
		}
	}
	return best
}

// loopIndex: the phi of the header that the index goes by
func loopIndex(h *ssa.BasicBlock, idx ssa.Value) ssa.Value {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph == idx {
			return ph
		}
		if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(ph) {
			for _, e := range ph.Edges {
				if e == ssa.Value(bo) {
					return ph
				}
			}
		}
	}
	return nil
}

func (o *ordering) callUse(f *ssa.Function, fam *ordFamily, ci ssa.CallInstruction, why string) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			if fam.vals[c.Args[1]] && !fam.vals[c.Args[0]] {
				blk, i := after(ci)
				o.followFrom(f, c.Args[0], blk, i, why)
			}
		}
		return
	}
	for i, a := range c.Args {
		if !fam.vals[a] && !fam.cells[a] {
			continue
		}
		_ = i
		callee := c.StaticCallee()
		if callee != nil && !o.w.inMod[callee] {
			if libSort(callee) || asksSorted(c) {
				continue
			}
			o.bad(f, ci, "a list in map order is given to "+callee.Name(), why)
			continue
		}
		for _, g := range o.w.Callees(c) {
			if len(g.Blocks) == 0 {
				continue
			}
			for pi, p := range g.Params {
				if argOf(c, g, pi) == a {
					o.followParam(g, p, fmt.Sprintf("%s, given to %s at %s", why, g.Name(), o.w.InstrPos(ci)))
				}
			}
		}
	}
}

func after(in ssa.Instruction) (*ssa.BasicBlock, int) {
	for i, x := range in.Block().Instrs {
		if x == in {
			return in.Block(), i + 1
		}
	}
	return in.Block(), len(in.Block().Instrs)
}

func (o *ordering) followParam(g *ssa.Function, p *ssa.Parameter, why string) {
	k := o.w.FuncKey(g) + "|" + p.Name()
	if o.param[k] {
		return
	}
	o.param[k] = true
	fam := o.family(g, p)
	o.Lists++
	for v := range fam.vals {
		o.seen["u|"+o.w.FuncKey(g)+"|"+v.Name()] = true
	}
	o.reach(g, fam, g.Blocks[0], 0, func(in ssa.Instruction) { o.use(g, fam, in, why) })
}

// returned: the function gives a list in map order
func (o *ordering) returned(f *ssa.Function, i int, at ssa.Instruction, why string) {
	if o.uret[f] == nil {
		o.uret[f] = map[int]string{}
	}
	if _, ok := o.uret[f][i]; ok {
		return
	}
	o.uret[f][i] = why
	n := 0
	for _, g := range o.w.Funcs {
		forEachInstr(g, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			hit := false
			for _, callee := range o.w.Callees(ci.Common()) {
				if callee == f {
					hit = true
				}
			}
			if !hit {
				return
			}
			n++
			cv := ci.Value()
			if cv == nil {
				return
			}
			var v ssa.Value = cv
			var start ssa.Instruction = ci
			if f.Signature.Results().Len() > 1 {
				v = nil
				for _, r := range *cv.Referrers() {
					if e, isE := r.(*ssa.Extract); isE && e.Index == i {
						v = e
						start = e
					}
				}
			}
			if v == nil {
				return
			}
			o.mark(g, v)
			blk, ix := after(start)
			o.work = append(o.work, func() {
				o.followFrom(g, v, blk, ix, fmt.Sprintf("%s, given by %s", why, f.Name()))
			})
		})
	}
	if n == 0 {
		o.bad(f, at, "a list is given out in map order", why)
	}
}

func (o *ordering) mark(f *ssa.Function, v ssa.Value) {
	for x := range o.family(f, v).vals {
		o.seen["u|"+o.w.FuncKey(f)+"|"+x.Name()] = true
	}
}

// given: the function fills the list behind its parameter in map order
func (o *ordering) given(f *ssa.Function, p *ssa.Parameter, at ssa.Instruction, why string) {
	pi := paramIndex(f, p)
	if o.uout[f] == nil {
		o.uout[f] = map[int]string{}
	}
	if _, ok := o.uout[f][pi]; ok {
		return
	}
	o.uout[f][pi] = why
	for _, g := range o.w.Funcs {
		forEachInstr(g, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, callee := range o.w.Callees(ci.Common()) {
				if callee != f {
					continue
				}
				a := argOf(ci.Common(), f, pi)
				if a == nil {
					continue
				}
				blk, ix := after(ci)
				switch q := a.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					o.work = append(o.work, func() { o.followFrom(g, a, blk, ix, why) })
				case *ssa.Parameter:
					o.work = append(o.work, func() { o.given(g, q, ci, why) })
				default:
					o.bad(g, ci, "a list is kept in map order", why)
				}
			}
		})
	}
}

// --- comparators

// comparators: sorting by something two elements can have in common leaves them in the order they came in
func (o *ordering) comparators(report func(f *ssa.Function, at ssa.Instruction, ok bool, what string)) {
	for _, f := range o.w.Funcs {
		forEachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			callee := c.StaticCallee()
			if callee == nil || o.w.inMod[callee] || !libSort(callee) {
				return
			}
			less := lessOf(o.w, c)
			if less == nil {
				report(f, in, true, "sorted by the elements themselves")
				return
			}
			whole, known := wholeCompare(less)
			report(f, in, whole || !known, "sorted by a function that compares the elements")
		})
	}
}

func lessOf(w *World, c *ssa.CallCommon) *ssa.Function {
	for _, a := range c.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			return mc.Fn.(*ssa.Function)
		}
		if fn, ok := a.(*ssa.Function); ok {
			return fn
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			ms := w.Prog.MethodSets.MethodSet(mi.X.Type())
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "Less" {
					if g := w.Prog.MethodValue(ms.At(i)); g != nil && w.inMod[g] {
						return g
					}
				}
			}
		}
	}
	return nil
}

// wholeCompare: some comparison of the function is between whole elements (texts, numbers)
func wholeCompare(f *ssa.Function) (whole, known bool) {
	elem := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if ok {
			var ia *ssa.IndexAddr
			ia, ok = u.X.(*ssa.IndexAddr)
			if ok {
				_, ok = ia.Index.(*ssa.Parameter)
			}
		}
		if !ok {
			_, ok = v.(*ssa.Parameter)
		}
		return ok
	}
	forEachInstr(f, func(in ssa.Instruction) {
		switch y := in.(type) {
		case *ssa.UnOp:
			if ia, ok := y.X.(*ssa.IndexAddr); ok && y.Op == token.MUL {
				_ = ia
				if _, basic := y.Type().Underlying().(*types.Basic); basic {
					known = true
				}
			}
		case *ssa.BinOp:
			if (y.Op == token.LSS || y.Op == token.GTR) && elem(y.X) && elem(y.Y) {
				whole = true
			}
		case *ssa.Call:
			if c := y.Call.StaticCallee(); c != nil && c.Name() == "Compare" && len(y.Call.Args) == 2 && elem(y.Call.Args[0]) && elem(y.Call.Args[1]) {
				whole = true
			}
		}
	})
	return
}

// --- run

func (w *World) ordering() *ordering {
	o := &ordering{w: w, fx: map[string][]ordEff{}, busy: map[string]bool{}, uret: map[*ssa.Function]map[int]string{},
		uout: map[*ssa.Function]map[int]string{}, param: map[string]bool{}, sorts: map[string]bool{}, seen: map[string]bool{}}
	fs := append([]*ssa.Function(nil), w.Funcs...)
	sort.Slice(fs, func(i, j int) bool { return w.FuncKey(fs[i]) < w.FuncKey(fs[j]) })
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n, ok := in.(*ssa.Next)
				if !ok || n.IsString {
					continue
				}
				rg := n.Iter.(*ssa.Range)
				o.loop(f, b, rg, "a map", func(x *ordCtx) {
					for _, r := range *n.Referrers() {
						e, isE := r.(*ssa.Extract)
						if !isE {
							continue
						}
						switch e.Index {
						case 0:
							x.set[e] = oInv
						case 1:
							x.set[e] = oKey
						case 2:
							x.set[e] = oDep
							if refType(e.Type()) {
								x.set[e] = oOwn
							}
						}
					}
				})
			}
		}
	}
	for n := 0; len(o.work) > 0 && n < 10000; n++ {
		f := o.work[0]
		o.work = o.work[1:]
		f()
	}
	return o
}

func dumpOrder(w *World) {
	o := w.ordering()
	for _, l := range o.Loops {
		fmt.Println("loop", w.InstrPos(l.At), w.FuncKey(l.F), l.Over)
	}
	for _, b := range o.Bad {
		fmt.Println("BAD", w.InstrPos(b.At), w.FuncKey(b.F), b.What, b.Trace)
	}
	o.comparators(func(f *ssa.Function, at ssa.Instruction, ok bool, what string) {
		fmt.Println("sort", ok, w.InstrPos(at), w.FuncKey(f), what)
	})
	_ = constant.Int
}
