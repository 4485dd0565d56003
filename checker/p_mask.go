package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: values of sensitive keys are shown masked.

func init() {
	register(&Prop{
		ID: "C20", Title: "Values of sensitive keys are shown masked",
		Explain: "Every place where the display or a builtin command takes the value of an arg or an env key whose name is not fixed is followed forward (through helpers, results, structs and parameters) until it is put into what is shown; on the way it has to go through the masking, with its own key. The masking itself and the test for sensitive keys are followed along every path.",
		Assume: []string{
			"a value shown alone, without its key (env.get), is asked for by the user, and texts of flows are shown as written",
		},
		Run: runC20,
	})
}

var sensitiveWords = []string{"pwd", "password", "passphrase", "secret", "private"}

func sensitiveName(k string) bool {
	k = strings.ToLower(k)
	for _, it := range sensitiveWords {
		if strings.Contains(k, it) {
			return true
		}
	}
	return false
}

type maskWalk struct {
	w      *World
	r      *Report
	fields map[string]bool // struct fields of the display that hold values
	nf     int
	seen   map[maskSeen]bool
	stack  []maskFrame
	where  string // the source followed, for reports
	bad    map[string]bool
	masked int
	alone  bool
}

type maskSeen struct {
	v   ssa.Value
	key ssa.Value
	at  *ssa.Call
}

// maskFrame: a call that was followed into, with the key as it is named there
type maskFrame struct {
	call *ssa.Call
	key  ssa.Value
}

func runC20(w *World, r *Report) {
	c20Masking(w, r)
	c20Words(w, r)
	c20Off(w, r)

	rule := "values-are-masked-on-their-way-to-the-screen"
	m := &maskWalk{w: w, r: r, fields: map[string]bool{}, bad: map[string]bool{}}
	for round := 0; round < 4; round++ {
		before := len(m.fields)
		last := round == 3
		for _, f := range w.Funcs {
			if len(f.Blocks) == 0 || !m.shows(f) {
				continue
			}
			forEachInstr(f, func(in ssa.Instruction) {
				v, ok := in.(ssa.Value)
				var key ssa.Value
				if c, isCall := in.(*ssa.Call); isCall && len(c.Call.Args) == 3 && !isConst(c.Call.Args[2]) && w.callsMethod(&c.Call, "core/model", "Env", "Set") {
					// what a key is set to here
					v, key = c.Call.Args[2], c.Call.Args[1]
					if !m.given(v, 0) {
						return
					}
				} else if b, isB := in.(*ssa.BinOp); isB && (b.Op == token.EQL || b.Op == token.NEQ) && isStringType(b.X.Type()) {
					// what the value of a key is compared with
					for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if k, is := m.source(p[0]); is && !fixedKey(k) && !isConst(p[1]) {
							v, key = p[1], k
						}
					}
					if key == nil {
						return
					}
				} else {
					if !ok || !isStringType(v.Type()) {
						return
					}
					key, ok = m.source(v)
					if !ok {
						return
					}
				}
				if fixedKey(key) {
					return
				}
				m.seen = map[maskSeen]bool{}
				m.where = w.FuncKey(f)
				nb := len(m.bad)
				m.follow(v, key, 0)
				r.Funcs[m.where] = true
				if len(m.bad) == nb && round == 0 {
					r.Ok(rule, m.where, w.InstrPos(in), "")
				}
			})
		}
		if len(m.fields) == before && round > 0 || last {
			break
		}
	}
	r.Floor(rule, 8)
}

// given: v is the value of an arg (also got by a helper), with a name fixed here
func (m *maskWalk) given(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	if k, ok := m.source(v); ok {
		return depth > 0 || fixedKey(k)
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || !m.shows(g) {
		return false
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && m.given(ret.Results[0], depth+1) {
			return true
		}
	}
	return false
}

// shows: the functions that make up what is shown
func (m *maskWalk) shows(f *ssa.Function) bool {
	return m.inDisplay(f) || m.w.inPkg(topFunc(f), "mods/builtin")
}

func (m *maskWalk) inDisplay(f *ssa.Function) bool { return m.w.inPkg(topFunc(f), "cli/display") }

// fixedKey: a key known here, that is not a sensitive one
func fixedKey(k ssa.Value) bool {
	if k == nil {
		return false
	}
	if s, ok := constString(k); ok {
		return !sensitiveName(s)
	}
	// fixed prefix or suffix texts do not matter, a name built from fixed ones does
	switch k := k.(type) {
	case *ssa.BinOp:
		return k.Op == token.ADD && fixedKey(k.X) && fixedKey(k.Y)
	case *ssa.Phi:
		for _, e := range k.Edges {
			if e == k {
				continue
			}
			if _, isPhi := e.(*ssa.Phi); isPhi || !fixedKey(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// the names of the strings of the model are settings of their own
		return false
	}
	return false
}

// source: v is the value of an arg or key; the key if it is seen
func (m *maskWalk) source(v ssa.Value) (key ssa.Value, ok bool) {
	w := m.w
	switch v := v.(type) {
	case *ssa.Call:
		c := &v.Call
		for _, g := range []struct{ typ, name string }{{"Env", "GetRaw"}, {"ArgVals", "GetRaw"}, {"ArgVals", "GetRawEx"}, {"Args", "DefVal"}, {"Args", "RawDefVal"}, {"Val2Env", "Val"}} {
			if w.callsMethod(c, "core/model", g.typ, g.name) {
				args := c.Args
				if !c.IsInvoke() {
					args = args[1:]
				}
				if len(args) > 0 {
					return args[0], true
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		fa, isF := v.X.(*ssa.FieldAddr)
		if !isF || !m.valueField(deref(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)) {
			return nil, false
		}
		return m.keyOf(fa.X, 0), true
	case *ssa.Field:
		st := v.X.Type()
		if s, isS := st.Underlying().(*types.Struct); isS && m.valueField(st, s.Field(v.Field).Name()) {
			return m.keyOf(v.X, 0), true
		}
	case *ssa.Lookup:
		if m.valueMap(v.X, 0, map[ssa.Value]bool{}) && !v.CommaOk {
			return v.Index, true
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			if v.Index == 0 && m.valueMap(t.X, 0, map[ssa.Value]bool{}) {
				return t.Index, true
			}
		case *ssa.Next:
			rg, isR := t.Iter.(*ssa.Range)
			if isR && v.Index == 2 && m.valueMap(rg.X, 0, map[ssa.Value]bool{}) {
				return m.nextKey(t), true
			}
		}
	}
	return nil, false
}

func (m *maskWalk) nextKey(t *ssa.Next) ssa.Value {
	for _, ref := range *t.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			return e
		}
	}
	return nil
}

func (m *maskWalk) valueField(t types.Type, name string) bool {
	if name == "Raw" && (m.w.isNamed(t, "core/model", "ArgVal") || m.w.isNamed(t, "core/model", "EnvVal")) {
		return true
	}
	if name == "Val" && m.w.isNamed(t, "core/model", "ParsedEnvVal") {
		return true
	}
	return m.fields[t.String()+"."+name]
}

// keyOf: the key under which a struct with a value was found
func (m *maskWalk) keyOf(v ssa.Value, depth int) ssa.Value {
	if depth > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Lookup:
		return v.Index
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Lookup:
			return t.Index
		case *ssa.Next:
			return m.nextKey(t)
		case *ssa.Call:
			if args := t.Call.Args; len(args) == 2 && m.w.callsMethod(&t.Call, "core/model", "Env", "GetEx") {
				return args[1]
			}
		}
	case *ssa.Call:
		if args := v.Call.Args; len(args) == 2 && m.w.callsMethod(&v.Call, "core/model", "Env", "Get") {
			return args[1]
		}
	case *ssa.UnOp:
		return m.keyOf(v.X, depth+1)
	case *ssa.Alloc:
		var found ssa.Value
		n := 0
		for _, ref := range *v.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == v {
				found = s.Val
				n++
			}
		}
		if n == 1 {
			return m.keyOf(found, depth+1)
		}
	}
	return nil
}

// valueMap: a map from keys to values (as Flatten makes them, or the system args)
func (m *maskWalk) valueMap(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	w := m.w
	if v == nil || depth > 8 || seen[v] {
		return false
	}
	seen[v] = true
	t := v.Type()
	if w.isNamed(t, "core/model", "SysArgVals") {
		return true
	}
	mt, ok := t.Underlying().(*types.Map)
	if !ok || !isStringType(mt.Key()) || !isStringType(mt.Elem()) {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		if w.callsMethod(&v.Call, "core/model", "Env", "Flatten") || w.callsMethod(&v.Call, "core/model", "Env", "FlattenAll") {
			return true
		}
		for _, g := range calleesOf(&v.Call) {
			if m.shows(g) && m.returnsMap(g, 0, depth, seen) {
				return true
			}
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			for _, g := range calleesOf(&c.Call) {
				if m.shows(g) && m.returnsMap(g, v.Index, depth, seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if m.valueMap(e, depth+1, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return m.valueMap(v.X, depth+1, seen)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a && m.valueMap(s.Val, depth+1, seen) {
					return true
				}
			}
		}
	case *ssa.MakeMap:
		// filled with values here
		for _, ref := range *v.Referrers() {
			if u, ok := ref.(*ssa.MapUpdate); ok && u.Map == v {
				if _, ok := m.source(u.Value); ok {
					return true
				}
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		if !m.shows(f) {
			return false
		}
		for i, p := range f.Params {
			if p != v {
				continue
			}
			for _, c := range w.callersOf()[f] {
				if i < len(c.Args) && !c.IsInvoke() && m.valueMap(c.Args[i], depth+1, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (m *maskWalk) returnsMap(g *ssa.Function, idx, depth int, seen map[ssa.Value]bool) bool {
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ok && idx < len(ret.Results) && m.valueMap(ret.Results[idx], depth+1, seen) {
			return true
		}
	}
	return false
}

// sameVal: the same value, also if it is loaded twice
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameLoad(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameLoad(x.X, y.X) && sameLoad(x.Index, y.Index)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && x.Tuple == y.Tuple
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	}
	return false
}

// madeFrom: v is key, or made from it
func madeFrom(v, key ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	if sameLoad(v, key) {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == x && madeFrom(ref.Val, key, seen) {
					return true
				}
			case *ssa.IndexAddr:
				for _, rr := range *ref.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == ref && madeFrom(s.Val, key, seen) {
						return true
					}
				}
			}
		}
	case ssa.Instruction:
		if _, isNext := v.(*ssa.Next); isNext {
			return false
		}
		if ia, ok := v.(*ssa.IndexAddr); ok {
			// one certain element of what is made from it (an abbreviation) does not stand for it
			if n, isN := constInt(ia.Index); isN && n > 0 {
				return false
			}
			if b, isB := ia.Index.(*ssa.BinOp); isB && b.Op == token.SUB {
				return false
			}
		}
		for _, op := range x.Operands(nil) {
			if *op != nil && madeFrom(*op, key, seen) {
				return true
			}
		}
	}
	return false
}

// ownKey: k is the key of the value v, or one the value is set under here
func (m *maskWalk) ownKey(k, v, key ssa.Value) bool {
	if madeFrom(k, key, map[ssa.Value]bool{}) {
		return true
	}
	for _, ref := range *v.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok || len(c.Call.Args) < 3 || c.Call.Args[2] != v {
			continue
		}
		if m.w.callsMethod(&c.Call, "core/model", "Env", "Set") && madeFrom(k, c.Call.Args[1], map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// known: what a key is, is seen here (not given by who knows whom)
func known(key ssa.Value) bool {
	if key == nil {
		return false
	}
	switch key.(type) {
	case *ssa.FreeVar:
		return false
	}
	return true
}

func (m *maskWalk) tests(c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	return g != nil && g.Name() == "IsSensitiveKeyVal" && m.w.inPkg(g, "core/model")
}

// follow a value forward to what is shown
func (m *maskWalk) follow(v ssa.Value, key ssa.Value, depth int) {
	if depth > 14 || v == nil || v.Referrers() == nil {
		return
	}
	id := maskSeen{v, key, nil}
	if n := len(m.stack); n > 0 {
		id.at = m.stack[n-1].call
	}
	if m.seen[id] {
		return
	}
	m.seen[id] = true
	f := v.Parent()
	// a function that decides itself is followed along its paths (if it is the masking), or not judged
	for _, ref := range *v.Referrers() {
		if c, ok := ref.(*ssa.Call); ok && m.tests(&c.Call) {
			if len(c.Call.Args) == 2 && known(key) && !m.ownKey(c.Call.Args[0], v, key) {
				m.report(c, "is masked by another key than its own")
			}
			return
		}
	}
	for _, ref := range *v.Referrers() {
		switch in := ref.(type) {
		case *ssa.BinOp:
			if in.Op != token.ADD {
				continue
			}
			if m.inDisplay(f) {
				m.report(in, "is put into a line to show without being masked")
				continue
			}
			m.follow(in, key, depth+1)
		case *ssa.Phi:
			m.follow(in, key, depth+1)
		case *ssa.ChangeType:
			m.follow(in, key, depth+1)
		case *ssa.Slice:
			if isStringType(in.Type()) {
				m.follow(in, key, depth+1)
			}
		case *ssa.MakeInterface:
			for _, rr := range *in.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Val == in && m.formats(s.Addr) && m.inDisplay(f) {
					m.report(in, "is formatted to be shown without being masked")
				}
			}
		case *ssa.Store:
			if in.Val != v {
				continue
			}
			switch a := in.Addr.(type) {
			case *ssa.Alloc:
				m.loads(a, key, depth)
			case *ssa.FreeVar:
			case *ssa.FieldAddr:
				t := deref(a.X.Type())
				if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == m.w.pkgPath("cli/display") {
					m.fields[t.String()+"."+fieldName(a.X.Type(), a.Field)] = true
				}
			}
		case *ssa.Return:
			if !m.shows(f) || f.Parent() != nil {
				continue
			}
			for i, res := range in.Results {
				if res == v {
					m.results(f, i, key, depth)
				}
			}
		case *ssa.Call:
			m.call(in, v, key, depth)
		}
	}
}

// formats: a slot of a list of values handed to a formatting or printing function
func (m *maskWalk) formats(addr ssa.Value) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok || ia.X.Referrers() == nil {
		return false
	}
	for _, ref := range *ia.X.Referrers() {
		sl, ok := ref.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, rr := range *sl.Referrers() {
			if c, ok := rr.(*ssa.Call); ok {
				n := fullName(&c.Call)
				if strings.HasPrefix(n, "fmt.") && !strings.HasPrefix(n, "fmt.Errorf") {
					return true
				}
			}
		}
	}
	return false
}

func (m *maskWalk) loads(a ssa.Value, key ssa.Value, depth int) {
	if a.Referrers() == nil {
		return
	}
	for _, ref := range *a.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp:
			m.follow(ref, key, depth+1)
		case *ssa.MakeClosure:
			g := ref.Fn.(*ssa.Function)
			for i, b := range ref.Bindings {
				if b == a && i < len(g.FreeVars) {
					m.loads(g.FreeVars[i], nil, depth+1)
				}
			}
		}
	}
}

// results: a value given back, at each call
func (m *maskWalk) results(g *ssa.Function, idx int, key ssa.Value, depth int) {
	if n := len(m.stack); n > 0 {
		top := m.stack[n-1]
		if top.call.Call.StaticCallee() != g {
			return
		}
		m.stack = m.stack[:n-1]
		m.result(top.call, g, idx, top.key, depth)
		m.stack = append(m.stack, top)
		return
	}
	at := -1
	for i, p := range g.Params {
		if key == p {
			at = i
		}
	}
	for _, f := range m.w.callerFns()[g] {
		if !m.shows(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != g {
				return
			}
			var k ssa.Value
			if at >= 0 && at < len(c.Call.Args) {
				k = c.Call.Args[at]
				if fixedKey(k) {
					return
				}
			} else if known(key) {
				if _, isC := key.(*ssa.Const); isC {
					k = key
				}
			}
			m.result(c, g, idx, k, depth)
		})
	}
}

func (m *maskWalk) result(c *ssa.Call, g *ssa.Function, idx int, k ssa.Value, depth int) {
	if g.Signature.Results().Len() == 1 {
		m.follow(c, k, depth+1)
		return
	}
	for _, ref := range *c.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == idx {
			m.follow(e, k, depth+1)
		}
	}
}

func (m *maskWalk) call(c *ssa.Call, v, key ssa.Value, depth int) {
	cc := &c.Call
	f := c.Parent()
	if cc.IsInvoke() {
		if m.w.isNamed(cc.Value.Type(), "core/model", "Screen") && m.inDisplay(f) {
			m.report(c, "is shown without being masked")
		} else if m.w.isNamed(cc.Value.Type(), "core/model", "Screen") && known(key) {
			// in a command: with its key, not alone
			for _, a := range cc.Args {
				if madeFromText(a, v) && m.withKey(a, v, key) {
					m.report(c, "is shown next to its key without being masked")
				}
			}
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			_ = b
			return
		}
		if m.inDisplay(f) {
			m.report(c, "is handed on to be shown without being masked")
		}
		return
	}
	if m.shows(g) && len(g.Blocks) > 0 {
		for i, a := range cc.Args {
			if a != v || i >= len(g.Params) {
				continue
			}
			var k ssa.Value
			if known(key) {
				for j, b := range cc.Args {
					if j != i && j < len(g.Params) && isStringType(b.Type()) && !isConst(b) && m.ownKey(b, v, key) {
						k = g.Params[j]
						break
					}
				}
				if k == nil {
					// the key is not handed on: a masking there would go by another one
					for j, b := range cc.Args {
						if j != i && j < len(g.Params) && isStringType(b.Type()) && m.masksBy(g, i, j) {
							_ = b
							m.report(c, "is masked by another key than its own")
							return
						}
					}
				}
			}
			m.stack = append(m.stack, maskFrame{c, key})
			m.follow(g.Params[i], k, depth+1)
			m.stack = m.stack[:len(m.stack)-1]
		}
		return
	}
	if n := fullName(cc); strings.HasPrefix(n, "strings.") && isStringType(c.Type()) {
		m.follow(c, key, depth+1)
	}
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// masksBy: parameter i of g is masked with parameter j as its key
func (m *maskWalk) masksBy(g *ssa.Function, i, j int) bool {
	found := false
	forEachInstr(g, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		for _, a := range c.Call.Args {
			if a != g.Params[i] && !madeFrom(a, g.Params[i], map[ssa.Value]bool{}) {
				continue
			}
			for _, b := range c.Call.Args {
				if b == g.Params[j] {
					if m.tests(&c.Call) {
						found = true
					} else if h := c.Call.StaticCallee(); h != nil && h != g && m.inDisplay(h) && isStringType(c.Type()) {
						for x, hx := range c.Call.Args {
							for y, hy := range c.Call.Args {
								if hx == a && hy == b && x < len(h.Params) && y < len(h.Params) && x != y && m.masksBy(h, x, y) {
									found = true
								}
							}
						}
					}
				}
			}
		}
	})
	return found
}

// madeFromText: a is v, or a text put together with it
func madeFromText(a, v ssa.Value) bool {
	if a == v {
		return true
	}
	if b, ok := a.(*ssa.BinOp); ok && b.Op == token.ADD {
		return madeFromText(b.X, v) || madeFromText(b.Y, v)
	}
	return false
}

// withKey: the text around the value has its key in it
func (m *maskWalk) withKey(a, v, key ssa.Value) bool {
	b, ok := a.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	for _, s := range []ssa.Value{b.X, b.Y} {
		if _, isB := s.(*ssa.BinOp); isB && m.withKey(s, v, key) {
			return true
		}
		// the value itself is looked up by its key
		if s == v {
			continue
		}
		if _, src := m.source(s); src {
			continue
		}
		if madeFrom(s, key, map[ssa.Value]bool{}) && !madeFrom(s, v, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func (m *maskWalk) report(at ssa.Instruction, what string) {
	rule := "values-are-masked-on-their-way-to-the-screen"
	k := m.where
	id := k + m.w.InstrPos(at)
	if m.bad[id] {
		return
	}
	m.bad[id] = true
	m.r.Violation(rule, k, m.w.InstrPos(at), "the value of an arg or env key (taken in "+m.where+") "+what+" in "+m.w.FuncKey(at.Parent()), nil)
}

// c20Masking: the functions that mask give the value back if it may be shown, else stars
func c20Masking(w *World, r *Report) {
	rule := "masking-hides-exactly-the-sensitive-values"
	m := &maskWalk{w: w}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || !w.inPkg(f, "cli/display") {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() != 1 || !isStringType(sig.Results().At(0).Type()) {
			continue
		}
		var test *ssa.Call
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && m.tests(&c.Call) {
				test = c
			}
		})
		if test == nil || len(test.Call.Args) != 2 {
			continue
		}
		var kp, vp *ssa.Parameter
		kp, _ = test.Call.Args[0].(*ssa.Parameter)
		vp, _ = test.Call.Args[1].(*ssa.Parameter)
		if kp == nil || vp == nil {
			continue
		}
		k := w.FuncKey(f)
		r.Funcs[k] = true
		sp := &Spec{Name: rule, MaxDisj: 40}
		sp.Inline = func(g *ssa.Function) bool { return false }
		sp.Value = func(x *Ctx, v ssa.Value) *AV { return emptyValue(x, v) }
		sp.Call = func(x *Ctx, c *ssa.CallCommon, g *ssa.Function, args []*AV) *Action {
			if m.tests(c) {
				if args[0].Key() != "$@key" || args[1].Key() != "$@val" {
					return nil
				}
				return &Action{Alts: []Alt{{Results: []*AV{avSym("@sensitive")}}}}
			}
			if w.callsMethod(c, "core/model", "Env", "GetBool") && len(args) == 2 {
				if s, ok := args[1].IsStr(); ok && s == "display.sensitive" {
					return &Action{Alts: []Alt{{Results: []*AV{avSym("@shown")}}}}
				}
			}
			return nil
		}
		sp.Instr = func(x *Ctx, in ssa.Instruction) {
			if x.truth("@sensitive") != "true" || x.truth("@shown") == "true" {
				return
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				if in.Op == token.ADD && (x.Val(in.X).Key() == "$@val" || x.Val(in.Y).Key() == "$@val") {
					x.Report(k, "what is given back for a sensitive value is made from it")
				}
			case *ssa.Slice:
				if x.Val(in.X).Key() == "$@val" {
					x.Report(k, "what is given back for a sensitive value is made from it")
				}
			}
		}
		sp.Exit = func(x *Ctx, o *Outcome) {
			if o.Kind != exReturn || len(o.Results) != 1 {
				return
			}
			r.Ok(rule, k, w.Pos(f.Pos()), "")
			v := o.Results[0]
			shown, sens, empty := x.truth("@shown"), x.truth("@sensitive"), x.isEmpty("@val")
			if v.Key() == "$@val" {
				if shown != "true" && sens != "false" && empty != "true" {
					x.Report(k, "a sensitive value may be given back as it is (display.sensitive=%q, sensitive=%q)", shown, sens)
				}
				return
			}
			if _, isC := v.IsStr(); !isC {
				if v.K == kSym && strings.Contains(v.Sym, "@val") {
					x.Report(k, "what is given back for a sensitive value is made from it")
				}
				return
			}
			if s, _ := v.IsStr(); empty == "true" && s == "" {
				return
			}
			if shown == "true" || sens == "false" {
				x.Report(k, "a value is masked though it is not sensitive, or sensitive values are to be shown")
			} else if shown != "false" || sens != "true" {
				x.Report(k, "a value is masked without knowing that it is sensitive and that sensitive values are not to be shown")
			} else if empty != "false" {
				x.Report(k, "an empty value is shown as a masked one")
			}
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(f, map[string]*AV{kp.Name(): avSym("@key"), vp.Name(): avSym("@val")}, nil)
		r.Engine(e)
	}
	r.Floor(rule, 1)
}

// c20Words: what is a sensitive key
func c20Words(w *World, r *Report) {
	rule := "sensitive-keys-are-found-by-their-words"
	f := w.FnOpt("core/model", "IsSensitiveKeyVal")
	if f == nil || len(f.Params) != 2 {
		return
	}
	k := w.FuncKey(f)
	r.Funcs[k] = true
	// the words: constants of the function, or of a package variable it reads
	have := map[string]bool{}
	collect := func(g *ssa.Function, only func(in ssa.Instruction) bool) {
		forEachInstr(g, func(in ssa.Instruction) {
			if only != nil && !only(in) {
				return
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if s, ok := constString(*op); ok {
					have[s] = true
				}
			}
		})
	}
	collect(f, nil)
	reads := false
	forEachInstr(f, func(in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.Global); ok {
				reads = true
			}
		}
	})
	if reads && f.Pkg != nil {
		if init, ok := f.Pkg.Members["init"].(*ssa.Function); ok {
			collect(init, nil)
		}
	}
	for _, s := range sensitiveWords {
		r.Ok(rule, k+" "+s, w.Pos(f.Pos()), "")
		if !have[s] {
			r.Violation(rule, k+" "+s, w.Pos(f.Pos()), "keys with '"+s+"' in their names are not taken as sensitive", nil)
		}
	}
	sp := &Spec{Name: rule, MaxDisj: 60}
	sp.Inline = func(g *ssa.Function) bool { return false }
	isWord := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if ok && u.Op == token.MUL {
			_, ok = u.X.(*ssa.IndexAddr)
			return ok
		}
		_, ok = v.(*ssa.Extract)
		return ok || isConst(v)
	}
	found := func(x *Ctx, c *ssa.CallCommon, args []*AV) *AV {
		if args[0].Key() == "$@lower" && isWord(c.Args[1]) {
			x.Set("looked", "1")
			return avSym("@has")
		}
		if args[0].Key() == "$@key" {
			x.Set("wrong", "the name is compared without regard to capitals")
		}
		return nil
	}
	sp.Value = func(x *Ctx, v ssa.Value) *AV {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return nil
		}
		n, isN := constInt(b.Y)
		if !isN || x.Val(b.X).Key() != "$@pos" {
			return nil
		}
		p := func(neg bool) *AV { return &AV{K: kPred, Sym: "@has", C: "true", Neg: neg} }
		switch {
		case b.Op == token.GEQ && n == 0, b.Op == token.GTR && n == -1, b.Op == token.NEQ && n == -1:
			return p(false)
		case b.Op == token.LSS && n == 0, b.Op == token.EQL && n == -1, b.Op == token.LEQ && n == -1:
			return p(true)
		}
		return &AV{K: kPred, Sym: "@elsewhere", C: "true"}
	}
	one := func(a *AV) *Action { return &Action{Alts: []Alt{{Results: []*AV{a}}}} }
	sp.Call = func(x *Ctx, c *ssa.CallCommon, g *ssa.Function, args []*AV) *Action {
		switch fullName(c) {
		case "strings.ToLower":
			if args[0].Key() == "$@key" {
				return one(avSym("@lower"))
			}
		case "strings.Index":
			if a := found(x, c, args); a != nil {
				x.St.define("@has")
				x.St.define("@elsewhere")
				return one(avSym("@pos"))
			}
		case "strings.Contains":
			if a := found(x, c, args); a != nil {
				x.St.define("@has")
				return one(a)
			}
		case "strings.HasPrefix", "strings.HasSuffix":
			if a := found(x, c, args); a != nil {
				x.St.define("@elsewhere")
				return one(avSym("@elsewhere"))
			}
		}
		if g != nil && len(args) == 1 && args[0].Key() == "$@val" {
			switch g.Name() {
			case "StrToTrue":
				return one(avSym("@true"))
			case "StrToFalse":
				return one(avSym("@false"))
			}
		}
		return nil
	}
	sp.Back = func(x *Ctx, from, to *ssa.BasicBlock) {
		if x.truth("@has") == "true" && x.truth("@true") == "false" && x.truth("@false") == "false" {
			x.Report(k, "the name has a sensitive word in it and the value is no boolean, but the key is not taken as sensitive")
		}
		if t := x.truth("@elsewhere"); t != "" {
			x.Report(k, "only some places of the name are looked at")
		}
	}
	sp.Exit = func(x *Ctx, o *Outcome) {
		if o.Kind != exReturn || len(o.Results) != 1 {
			return
		}
		r.Ok(rule, k, w.Pos(f.Pos()), "")
		if s := x.Get("wrong"); s != "" {
			x.Report(k, "%s", s)
			return
		}
		if x.Get("looked") == "" {
			return
		}
		v := x.St.Eval(o.Results[0])
		has, t, fl := x.truth("@has"), x.truth("@true"), x.truth("@false")
		if x.truth("@elsewhere") != "" {
			x.Report(k, "only some places of the name are looked at")
			return
		}
		if v == "true" && (has != "true" || t != "false" || fl != "false") {
			x.Report(k, "a key is taken as sensitive without such a word in its name, or with a boolean value")
		}
		if v == "false" && has == "true" && t != "true" && fl != "true" {
			x.Report(k, "a key with such a word in its name is not taken as sensitive")
		}
	}
	e := NewEngine(w, r, rule, sp)
	e.Run(f, map[string]*AV{f.Params[0].Name(): avSym("@key"), f.Params[1].Name(): avSym("@val")}, nil)
	r.Engine(e)
}

// c20Off: showing sensitive values is off in the default env, and nothing but a setting of the user switches it on
func c20Off(w *World, r *Report) {
	rule := "showing-sensitive-values-is-off-by-default"
	n := 0
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			isBool := w.callsMethod(&c.Call, "core/model", "Env", "SetBool")
			if !isBool && !w.callsMethod(&c.Call, "core/model", "Env", "Set") {
				return
			}
			if len(c.Call.Args) != 3 {
				return
			}
			if s, ok := constString(c.Call.Args[1]); !ok || s != "display.sensitive" {
				return
			}
			n++
			k := w.FuncKey(f)
			r.Funcs[k] = true
			r.Ok(rule, k, w.InstrPos(in), "")
			v, isC := c.Call.Args[2].(*ssa.Const)
			if !isC {
				return
			}
			switch v.Value.String() {
			case "false", `"false"`, `"off"`, `"0"`, `"no"`, `""`:
			default:
				r.Violation(rule, k, w.InstrPos(in), "sensitive values are shown without the user having asked for it", nil)
			}
		})
	}
	if n == 0 {
		r.Ok(rule, "(default)", "", "the key is never set, which is off")
	}
}
