package main

// A path-sensitive typestate dataflow engine over SSA (in the style of ESP's
// property simulation): abstract states are pairs of a rule automaton and a set
// of facts about the live values; states are merged at block entries when they
// are identical; in-module callees that matter to the rule are analysed in
// context, deferred calls run at function exits and when a panic unwinds.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type avKind uint8

const (
	kUnknown avKind = iota
	kSym
	kConst
	kFunc
	kTuple
	kAddr
	kPred // boolean value of (Sym == C), negated when Neg
)

// AV is an abstract value. AVs are immutable.
type AV struct {
	K      avKind
	Sym    string // kSym name, kAddr path, kPred subject
	C      string // kConst / kPred constant: "true","false","nil","i:1","s:abc"
	Neg    bool
	NonNil bool
	Fn     *ssa.Function
	Binds  []*AV
	Elems  []*AV
	key    string
}

func (a *AV) Key() string {
	if a == nil {
		return "_"
	}
	if a.key == "" {
		var b strings.Builder
		switch a.K {
		case kUnknown:
			b.WriteString("?")
		case kSym:
			b.WriteString("$" + a.Sym)
			if a.NonNil {
				b.WriteString("!")
			}
		case kConst:
			b.WriteString("=" + a.C)
		case kAddr:
			b.WriteString("&" + a.Sym)
		case kPred:
			if a.Neg {
				b.WriteString("~")
			}
			b.WriteString("(" + a.Sym + "==" + a.C + ")")
		case kFunc:
			b.WriteString("fn:" + a.Fn.String())
			for _, x := range a.Binds {
				b.WriteString("[" + x.Key() + "]")
			}
		case kTuple:
			b.WriteString("<")
			for _, x := range a.Elems {
				b.WriteString(x.Key() + ",")
			}
			b.WriteString(">")
		}
		a.key = b.String()
	}
	return a.key
}

var avUnknown = &AV{K: kUnknown}
var avTrue = &AV{K: kConst, C: "true"}
var avFalse = &AV{K: kConst, C: "false"}
var avNil = &AV{K: kConst, C: "nil"}

func avSym(s string) *AV    { return &AV{K: kSym, Sym: s} }
func avNonNil(s string) *AV { return &AV{K: kSym, Sym: s, NonNil: true} }
func avStr(s string) *AV    { return &AV{K: kConst, C: "s:" + s} }
func avInt(i int) *AV       { return &AV{K: kConst, C: fmt.Sprintf("i:%d", i)} }
func avTuple(es ...*AV) *AV { return &AV{K: kTuple, Elems: es} }
func avBool(b bool) *AV {
	if b {
		return avTrue
	}
	return avFalse
}

func (a *AV) IsStr() (string, bool) {
	if a != nil && a.K == kConst && strings.HasPrefix(a.C, "s:") {
		return a.C[2:], true
	}
	return "", false
}

type Fact struct {
	Eq string
	Ne []string
}

func (f Fact) key() string { return f.Eq + "|" + strings.Join(f.Ne, ",") }

type deferred struct {
	call *ssa.Defer
	fn   *AV
	args []*AV
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*AV
	defers []deferred
	site   ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, vals: make(map[ssa.Value]*AV, len(f.vals)), site: f.site}
	for k, v := range f.vals {
		n.vals[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return n
}

type trace struct {
	prev *trace
	msg  string
	n    int
}

// State is one abstract state.
type State struct {
	stack []*Frame
	facts map[string]Fact
	heap  map[string]*AV
	auto  map[string]string
	panic *AV // value of the panic being unwound (while deferred calls run)
	tr    *trace
}

func (s *State) clone() *State {
	n := &State{facts: make(map[string]Fact, len(s.facts)), heap: make(map[string]*AV, len(s.heap)),
		auto: make(map[string]string, len(s.auto)), panic: s.panic, tr: s.tr}
	for _, f := range s.stack {
		n.stack = append(n.stack, f.clone())
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.stack[len(s.stack)-1] }

func (s *State) note(msg string) {
	n := 1
	if s.tr != nil {
		n = s.tr.n + 1
	}
	s.tr = &trace{s.tr, msg, n}
}

func (s *State) Trace(max int) []string {
	var out []string
	for t := s.tr; t != nil && len(out) < max; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) key() string {
	var b strings.Builder
	for _, f := range s.stack {
		b.WriteString("{")
		ks := make([]string, 0, len(f.vals))
		for v, av := range f.vals {
			ks = append(ks, v.Name()+":"+av.Key())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
		for _, d := range f.defers {
			b.WriteString("D" + fmt.Sprint(d.call.Pos()) + d.fn.Key())
			for _, a := range d.args {
				b.WriteString(a.Key())
			}
		}
		b.WriteString("}")
	}
	for _, k := range sortedKeys(s.facts) {
		b.WriteString(k + "=" + s.facts[k].key() + ";")
	}
	b.WriteString("#")
	for _, k := range sortedKeys(s.heap) {
		b.WriteString(k + "=" + s.heap[k].Key() + ";")
	}
	b.WriteString("#")
	for _, k := range sortedKeys(s.auto) {
		b.WriteString(k + "=" + s.auto[k] + ";")
	}
	b.WriteString(s.panic.Key())
	return b.String()
}

// structKey identifies the automaton part of a state: states that agree on it
// may be joined.
func (s *State) structKey(track func(string) bool) string {
	var b strings.Builder
	for _, f := range s.stack {
		for _, d := range f.defers {
			b.WriteString("D" + fmt.Sprint(d.call.Pos()))
		}
		b.WriteString("|")
	}
	for _, k := range sortedKeys(s.auto) {
		b.WriteString(k + "=" + s.auto[k] + ";")
	}
	for _, k := range sortedKeys(s.facts) {
		if isLabel(k) {
			b.WriteString(k + "=" + s.facts[k].key() + ";")
		}
	}
	if track != nil {
		var ks []string
		for _, f := range s.stack {
			for v, a := range f.vals {
				if a.K == kSym && track(a.Sym) {
					ks = append(ks, v.Name()+":"+a.Sym)
				}
			}
		}
		for k, a := range s.heap {
			if a.K == kSym && track(a.Sym) {
				ks = append(ks, k+":"+a.Sym)
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
	}
	b.WriteString(s.panic.Key())
	return b.String()
}

// join merges o into s (same structKey); reports whether s changed.
func (s *State) join(o *State) bool {
	changed := false
	for i, f := range s.stack {
		g := o.stack[i]
		for v, a := range f.vals {
			b, ok := g.vals[v]
			if !ok || a.Key() != b.Key() {
				if a.K != kUnknown {
					f.vals[v] = avUnknown
					changed = true
				}
			}
		}
		for j := range f.defers {
			for k, a := range f.defers[j].args {
				if a.Key() != g.defers[j].args[k].Key() && a.K != kUnknown {
					na := append([]*AV(nil), f.defers[j].args...)
					na[k] = avUnknown
					f.defers[j].args = na
					changed = true
				}
			}
		}
	}
	for k, a := range s.heap {
		b, ok := o.heap[k]
		if (!ok || a.Key() != b.Key()) && a.K != kUnknown {
			s.heap[k] = avUnknown
			changed = true
		}
	}
	for k := range o.heap {
		if _, ok := s.heap[k]; !ok {
			s.heap[k] = avUnknown
			changed = true
		}
	}
	for k, f := range s.facts {
		g := o.facts[k]
		if f.key() == g.key() {
			continue
		}
		var ne []string
		fs, gs := f.Ne, g.Ne
		if f.Eq != "" && f.Eq != "nil" {
			fs = []string{"nil"}
		}
		if g.Eq != "" && g.Eq != "nil" {
			gs = []string{"nil"}
		}
		for _, a := range fs {
			for _, b := range gs {
				if a == b {
					ne = append(ne, a)
				}
			}
		}
		n := Fact{Ne: ne}
		if n.key() != f.key() {
			changed = true
			if len(ne) == 0 {
				delete(s.facts, k)
			} else {
				s.facts[k] = n
			}
		}
	}
	return changed
}

// ---- facts ----

// symRoot is the part of a path symbol up to its first selector.
func symRoot(s string) string {
	if i := strings.IndexAny(s, ".[%"); i > 0 {
		return s[:i]
	}
	return s
}

func hasPathPrefix(s, p string) bool {
	return s == p || (strings.HasPrefix(s, p) && len(s) > len(p) && strings.ContainsRune(".[%", rune(s[len(p)])))
}

// Eval evaluates a boolean AV: "true", "false" or "".
func (s *State) Eval(a *AV) string {
	if a == nil {
		return ""
	}
	switch a.K {
	case kConst:
		if a.C == "true" || a.C == "false" {
			return a.C
		}
	case kSym:
		if f, ok := s.facts[a.Sym]; ok {
			if f.Eq == "true" || f.Eq == "false" {
				return f.Eq
			}
		}
	case kPred:
		r := ""
		if f, ok := s.facts[a.Sym]; ok {
			if f.Eq != "" {
				r = fmt.Sprint(f.Eq == a.C)
			} else {
				for _, n := range f.Ne {
					if n == a.C {
						r = "false"
					}
				}
			}
		}
		if r != "" && a.Neg {
			if r == "true" {
				return "false"
			}
			return "true"
		}
		return r
	}
	return ""
}

// Assume adds the fact that boolean AV a has value v.
func (s *State) Assume(a *AV, v bool) {
	switch a.K {
	case kSym:
		s.facts[a.Sym] = Fact{Eq: fmt.Sprint(v)}
	case kPred:
		if a.Neg {
			v = !v
		}
		if v {
			s.facts[a.Sym] = Fact{Eq: a.C}
		} else if a.C == "true" {
			s.facts[a.Sym] = Fact{Eq: "false"}
		} else if a.C == "false" {
			s.facts[a.Sym] = Fact{Eq: "true"}
		} else {
			f := s.facts[a.Sym]
			if f.Eq == "" && len(f.Ne) < 24 {
				ne := append([]string(nil), f.Ne...)
				ne = append(ne, a.C)
				sort.Strings(ne)
				s.facts[a.Sym] = Fact{Ne: ne}
			}
		}
	}
}

// IsNil: "true"/"false"/"".
func (s *State) IsNil(a *AV) string {
	if a == nil {
		return ""
	}
	switch a.K {
	case kConst:
		return fmt.Sprint(a.C == "nil")
	case kAddr, kFunc:
		return "false"
	case kSym:
		if a.NonNil {
			return "false"
		}
		if f, ok := s.facts[a.Sym]; ok {
			if f.Eq != "" {
				return fmt.Sprint(f.Eq == "nil")
			}
			for _, n := range f.Ne {
				if n == "nil" {
					return "false"
				}
			}
		}
	}
	return ""
}

// ConstOf returns the constant a value is known to equal.
func (s *State) ConstOf(a *AV) (string, bool) {
	if a == nil {
		return "", false
	}
	if a.K == kConst {
		return a.C, true
	}
	if a.K == kSym {
		if f, ok := s.facts[a.Sym]; ok && f.Eq != "" {
			return f.Eq, true
		}
	}
	if a.K == kPred {
		if r := s.Eval(a); r != "" {
			return r, true
		}
	}
	return "", false
}

// mapSyms rewrites every symbol in an AV; fn returns (newName, drop).
func mapSyms(a *AV, fn func(string) (string, bool, bool), addrs bool) *AV {
	if a == nil {
		return nil
	}
	if a.K == kAddr && !addrs {
		return a
	}
	switch a.K {
	case kSym, kAddr, kPred:
		n, ch, drop := fn(a.Sym)
		if drop {
			return avUnknown
		}
		if !ch {
			return a
		}
		c := *a
		c.Sym = n
		c.key = ""
		return &c
	case kTuple, kFunc:
		var src []*AV
		if a.K == kTuple {
			src = a.Elems
		} else {
			src = a.Binds
		}
		changed := false
		out := make([]*AV, len(src))
		for i, e := range src {
			out[i] = mapSyms(e, fn, addrs)
			if out[i] != e {
				changed = true
			}
		}
		if !changed {
			return a
		}
		c := *a
		c.key = ""
		if a.K == kTuple {
			c.Elems = out
		} else {
			c.Binds = out
		}
		return &c
	}
	return a
}

// retire ages every symbol selected by match: sym -> sym~ ; existing sym~ become unknown.
func (s *State) retire(match func(string) bool, addrs bool) {
	any := false
	for k := range s.facts {
		if match(strings.TrimSuffix(k, "~")) {
			any = true
		}
	}
	fn := func(n string) (string, bool, bool) {
		if strings.HasSuffix(n, "~") {
			if match(n[:len(n)-1]) {
				return "", false, true
			}
			return n, false, false
		}
		if match(n) {
			return n + "~", true, false
		}
		return n, false, false
	}
	for _, f := range s.stack {
		for v, a := range f.vals {
			f.vals[v] = mapSyms(a, fn, addrs)
		}
		for i := range f.defers {
			f.defers[i].fn = mapSyms(f.defers[i].fn, fn, addrs)
			na := make([]*AV, len(f.defers[i].args))
			for j, a := range f.defers[i].args {
				na[j] = mapSyms(a, fn, addrs)
			}
			f.defers[i].args = na
		}
	}
	for k, a := range s.heap {
		s.heap[k] = mapSyms(a, fn, addrs)
	}
	s.panic = mapSyms(s.panic, fn, addrs)
	if any {
		nf := make(map[string]Fact, len(s.facts))
		for k, v := range s.facts {
			n, _, drop := fn(k)
			if !drop {
				nf[n] = v
			}
		}
		s.facts = nf
	}
}

func isLabel(s string) bool { return strings.HasPrefix(s, "@") }

// define (re)defines a symbol: old references are aged, facts about it forgotten.
func (s *State) define(sym string) {
	s.retire(func(n string) bool { return hasPathPrefix(n, sym) }, true)
	for k := range s.heap {
		if hasPathPrefix(k, sym) {
			delete(s.heap, k)
		}
	}
	delete(s.facts, sym)
}

// clobber forgets everything reachable through the given value (passed to an
// unknown callee).
func (s *State) clobber(a *AV, mod map[string]bool, known bool, depth int) {
	if a == nil || depth > 3 {
		return
	}
	hit := func(path, root string) bool { return !known || pathHit(strings.TrimSuffix(path, "~"), root, mod) }
	switch a.K {
	case kTuple:
		for _, e := range a.Elems {
			s.clobber(e, mod, known, depth+1)
		}
	case kFunc:
		for _, e := range a.Binds {
			s.clobber(e, nil, false, depth+1)
		}
	case kAddr:
		// the variable itself may be overwritten
		root := a.Sym
		for k := range s.heap {
			if hasPathPrefix(k, root) && (k == root && (!known || mod["*"]) || k != root && hit(k, root)) {
				s.heap[k] = avUnknown
			}
		}
		if _, ok := s.heap[root]; !ok && (!known || mod["*"]) {
			s.heap[root] = avUnknown
		}
		s.retire(func(n string) bool {
			return hasPathPrefix(n, root) && (n == root && (!known || mod["*"]) || n != root && hit(n, root))
		}, false)
		// objects the variable points to
		for k, v := range s.heap {
			if hasPathPrefix(k, root) && v.K == kSym {
				s.clobber(v, mod, known, depth+1)
			}
		}
	case kSym:
		root := a.Sym
		s.retire(func(n string) bool { return n != root && hasPathPrefix(n, root) && hit(n, root) }, false)
		for k, v := range s.heap {
			if k != root && hasPathPrefix(k, root) {
				if hit(k, root) {
					delete(s.heap, k)
				} else if (v.K == kSym || v.K == kAddr) && v.Sym != root {
					s.clobber(v, mod, known, depth+1)
				}
			}
		}
	}
}

// ---- outcomes, spec ----

type exitKind uint8

const (
	exReturn exitKind = iota
	exPanic
	exExit // os.Exit and friends: the process ends, nothing is unwound
)

func (k exitKind) String() string { return [...]string{"return", "panic", "exit"}[k] }

type Outcome struct {
	Kind    exitKind
	Results []*AV
	Val     *AV // panic value / exit code
	St      *State
	At      ssa.Instruction
}

// Alt is one way a modelled call can end.
type Alt struct {
	Results []*AV
	Panics  bool
	Val     *AV
	Apply   func(x *Ctx) // effect on the state
	Note    string
}

type Action struct {
	Alts   []Alt // when non-nil the call is modelled by these alternatives
	Opaque bool  // do not inline; unknown results
	Pure   bool  // with Opaque: touches nothing
	Inline bool  // force inlining
	Drop   bool  // path ends here, silently (e.g. infeasible / out of scope)
	// Invoke: the call runs this function value (once, or not at all) with InvokeArgs
	Invoke     *AV
	InvokeArgs []*AV
}

type Spec struct {
	SameCopies bool // a copy of a struct is the same object as the original, whatever fields were set
	Name       string
	// Call may model a call. callee may be nil (dynamic / interface / builtin).
	Call func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action
	// Inline decides about in-module callees with bodies (default: relevant set).
	Inline func(fn *ssa.Function) bool
	// Event tells which call instructions matter, to compute the relevant set.
	Event func(c *ssa.CallCommon) bool
	// Value may give a name to a computed value (facts about names persist).
	Value func(x *Ctx, v ssa.Value) *AV
	// Split may compute a value in several ways (one alternative each); nil: no say.
	Split func(x *Ctx, v ssa.Value) []Alt
	// Back observes loop back edges.
	Back func(x *Ctx, from, to *ssa.BasicBlock)
	// Track: states holding a value with such a name in different places are never joined.
	Track func(sym string) bool
	// Within limits the functions the default inlining set may come from.
	Within func(fn *ssa.Function) bool
	// Instr observes every instruction before it is executed.
	Instr func(x *Ctx, in ssa.Instruction)
	// Branch observes a decided branch
	Exit func(x *Ctx, o *Outcome)
	// MayPanic lets opaque calls panic.
	MayPanic func(c *ssa.CallCommon) bool
	MaxSteps int
	MaxDepth int
	MaxDisj  int // disjuncts kept per block and automaton state before joining
	// KeepFact pins facts about heap locations (by path) that no live value holds.
	KeepFact func(sym string) bool
}

type Engine struct {
	W     *World
	Spec  *Spec
	Steps int
	rel   map[*ssa.Function]bool
	live  map[*ssa.Function]*liveness
	rep   *Report
	Rule  string
	// statistics
	Inlined  map[*ssa.Function]bool
	Exits    int
	visited  int
	Merged   int
	active   map[*ssa.Function]int
	recTrunc map[string]bool
	prof     map[string]int
	rpo      map[*ssa.Function]map[*ssa.BasicBlock]int
}

func NewEngine(w *World, rep *Report, rule string, sp *Spec) *Engine {
	if sp.MaxSteps == 0 {
		sp.MaxSteps = 20000000
	}
	if sp.MaxDisj == 0 {
		sp.MaxDisj = 10
	}
	if sp.MaxDepth == 0 {
		sp.MaxDepth = 24
	}
	e := &Engine{W: w, Spec: sp, rep: rep, Rule: rule, live: map[*ssa.Function]*liveness{},
		Inlined: map[*ssa.Function]bool{}, active: map[*ssa.Function]int{}, recTrunc: map[string]bool{}}
	if sp.Event != nil {
		e.rel = w.RelevantIn(sp.Event, sp.Within)
	}
	return e
}

// Relevant computes the module functions which (transitively, through static
// calls and the closures they create) contain a call for which ev holds.
func (w *World) Relevant(ev func(c *ssa.CallCommon) bool) map[*ssa.Function]bool {
	return w.RelevantIn(ev, nil)
}

// RelevantIn: in (if given) limits the functions relevance spreads through.
func (w *World) RelevantIn(ev func(c *ssa.CallCommon) bool, in func(f *ssa.Function) bool) map[*ssa.Function]bool {
	rel := map[*ssa.Function]bool{}
	users := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for f := range w.inMod {
		if !w.InModule(f) || (in != nil && !in(f)) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if ev(c.Common()) && !rel[f] {
					rel[f] = true
					work = append(work, f)
				}
			}
			var rands [12]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					users[g] = append(users[g], f)
				}
			}
		})
		if p := f.Parent(); p != nil {
			users[f] = append(users[f], p)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, u := range users[f] {
			if !rel[u] {
				rel[u] = true
				work = append(work, u)
			}
		}
	}
	return rel
}

// Ctx is what the callbacks see.
type Ctx struct {
	E  *Engine
	St *State
	In ssa.Instruction
	Fn *ssa.Function
}

func (x *Ctx) Get(k string) string { return x.St.auto[k] }
func (x *Ctx) Set(k, v string) {
	if v == "" {
		delete(x.St.auto, k)
	} else {
		x.St.auto[k] = v
	}
}
func (x *Ctx) Val(v ssa.Value) *AV { return x.E.val(x.St, v) }

// Fact of a label or symbol: its known constant ("" if unknown).
func (x *Ctx) Fact(sym string) string { return x.St.facts[sym].Eq }
func (x *Ctx) Depth() int             { return len(x.St.stack) }

// Report a violation. construct must be stable under line shifts.
func (x *Ctx) Report(construct, f string, a ...interface{}) {
	x.E.rep.Violation(x.E.Rule, construct, x.E.W.InstrPos(x.In), fmt.Sprintf(f, a...), x.St.Trace(40))
}

// Label gives the call result idx a persistent name.
func label(name string) *AV { return avSym("@" + name) }

var debugProf = os.Getenv("VERIF_PROF") != ""
var debugBlock = os.Getenv("VERIF_BLOCK")

// ---- liveness ----

type liveness struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
}

// liveAfter: the values still needed once instruction at has been executed
// (phis of the block's own entry included when used later).
func (e *Engine) liveAfter(at ssa.Instruction) map[ssa.Value]bool {
	b := at.Block()
	l := e.liveOf(b.Parent())
	if m, ok := l.after[at]; ok {
		return m
	}
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s] {
			cur[v] = true
		}
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if trackable(phi.Edges[pi]) {
					cur[phi.Edges[pi]] = true
				}
			}
		}
	}
	if r := b.Parent().Recover; r != nil {
		for v := range l.in[r] {
			cur[v] = true
		}
	}
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		in := b.Instrs[k]
		if in == at {
			break
		}
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		var rands [12]*ssa.Value
		for _, op := range in.Operands(rands[:0]) {
			if op != nil && *op != nil && trackable(*op) {
				cur[*op] = true
			}
		}
	}
	l.after[at] = cur
	return cur
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return false
	}
	return true
}

func (e *Engine) liveOf(f *ssa.Function) *liveness {
	if l, ok := e.live[f]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			if f.Recover != nil && b != f.Recover {
				for v := range l.in[f.Recover] {
					cur[v] = true
				}
			}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					cur[v] = true
				}
				// phi operands flow along this edge
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if trackable(phi.Edges[pi]) {
							cur[phi.Edges[pi]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var rands [12]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op != nil && *op != nil && trackable(*op) {
						cur[*op] = true
					}
				}
			}
			// phis are defined at entry (after edge copy); values live-in exclude them
			if len(cur) != len(l.in[b]) {
				l.in[b] = cur
				changed = true
			}
		}
	}
	e.live[f] = l
	return l
}

// ---- evaluation ----

func constAV(c *ssa.Const) *AV {
	if c.Value == nil {
		return zeroAV(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return avBool(constant.BoolVal(c.Value))
	case constant.String:
		return avStr(constant.StringVal(c.Value))
	case constant.Int:
		return &AV{K: kConst, C: "i:" + c.Value.ExactString()}
	}
	return &AV{K: kConst, C: "c:" + c.Value.ExactString()}
}

func zeroAV(t types.Type) *AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return avFalse
		case u.Info()&types.IsString != 0:
			return avStr("")
		case u.Info()&types.IsInteger != 0:
			return avInt(0)
		case u.Kind() == types.UntypedNil:
			return avNil
		}
		return &AV{K: kConst, C: "zero"}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return avNil
	}
	return &AV{K: kConst, C: "zero"}
}

var symSan = strings.NewReplacer(".", "/", "[", "(", "]", ")", "%", "/", "~", "-")

// symName names the location of an instruction; it contains no selectors.
func (e *Engine) symName(v ssa.Value) string {
	return symSan.Replace(e.W.FuncKey(v.Parent())) + "#" + v.Name()
}

func (e *Engine) val(s *State, v ssa.Value) *AV {
	switch v := v.(type) {
	case *ssa.Const:
		return constAV(v)
	case *ssa.Function:
		return &AV{K: kFunc, Fn: v}
	case *ssa.Builtin:
		return avUnknown
	case *ssa.Global:
		return &AV{K: kAddr, Sym: "G:" + symSan.Replace(v.String())}
	}
	if a, ok := s.top().vals[v]; ok {
		return a
	}
	// value never computed on this path in our model
	return avUnknown
}

func cloneNames(f *ssa.Function) string { return f.String() }

type work struct {
	b   *ssa.BasicBlock
	idx int
	st  *State
}

// Run analyses a root with the given parameter values (nil = fresh symbols).
func (e *Engine) Run(root *ssa.Function, params map[string]*AV, free map[string]*AV) {
	st := &State{facts: map[string]Fact{}, heap: map[string]*AV{}, auto: map[string]string{}}
	var args []*AV
	for _, p := range root.Params {
		a := params[p.Name()]
		if a == nil {
			a = avSym("p:" + p.Name())
		}
		args = append(args, a)
	}
	var binds []*AV
	for _, p := range root.FreeVars {
		a := free[p.Name()]
		if a == nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				a = &AV{K: kAddr, Sym: "fv:" + p.Name()}
			} else {
				a = avSym("fv:" + p.Name())
			}
		}
		binds = append(binds, a)
	}
	e.RunState(root, args, binds, st)
}

func (e *Engine) RunState(root *ssa.Function, args, binds []*AV, st *State) {
	outs := e.runFunc(root, args, binds, st, nil)
	for _, o := range outs {
		e.Exits++
		if e.Spec.Exit != nil {
			x := &Ctx{E: e, St: o.St, In: o.At, Fn: root}
			e.Spec.Exit(x, o)
		}
	}
}

func (e *Engine) runFunc(fn *ssa.Function, args, binds []*AV, st *State, site ssa.Instruction) []*Outcome {
	if len(fn.Blocks) == 0 {
		return nil
	}
	e.Inlined[fn] = true
	e.active[fn]++
	defer func() { e.active[fn]-- }()
	fr := &Frame{fn: fn, vals: map[ssa.Value]*AV{}, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		} else {
			fr.vals[p] = avUnknown
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.vals[p] = binds[i]
		} else {
			fr.vals[p] = avUnknown
		}
	}
	st.stack = append(st.stack, fr)
	seen := map[string]bool{}
	count := map[string]int{}
	joined := map[string]*State{}
	var outs []*Outcome
	outKeys := map[string]bool{}
	outGroup := map[string][]*Outcome{}
	emit := func(o *Outcome) {
		// pop the frame
		o.St.stack = o.St.stack[:len(o.St.stack)-1]
		e.gc(o.St, o.Results, o.Val)
		g := o.Kind.String() + "/"
		for _, r := range o.Results {
			g += r.Key() + ","
		}
		g += o.Val.Key() + "/"
		k := g + o.St.key()
		if outKeys[k] {
			return
		}
		outKeys[k] = true
		g += o.St.structKey(e.Spec.Track)
		if l := outGroup[g]; len(l) >= e.Spec.MaxDisj {
			e.Merged++
			l[len(l)-1].St.join(o.St)
			return
		}
		outGroup[g] = append(outGroup[g], o)
		outs = append(outs, o)
	}
	rpo := e.rpoOf(fn)
	wl := []work{{fn.Blocks[0], 0, st}}
	for len(wl) > 0 {
		// the pending state earliest in reverse postorder goes first, so that
		// states meet at joins before the code behind the join is analysed
		bi := len(wl) - 1
		for i := len(wl) - 2; i >= 0; i-- {
			if rpo[wl[i].b] < rpo[wl[bi].b] {
				bi = i
			}
		}
		w := wl[bi]
		wl[bi] = wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		if w.idx == 0 && len(w.b.Preds) > 1 {
			e.prune(w.st, w.b)
			k := fmt.Sprintf("%d|", w.b.Index) + w.st.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			sk := fmt.Sprintf("%d|", w.b.Index) + w.st.structKey(e.Spec.Track)
			count[sk]++
			if count[sk] > e.Spec.MaxDisj {
				// too many disjuncts with the same automaton state: join them
				e.Merged++
				j := joined[sk]
				if j == nil {
					joined[sk] = w.st.clone()
				} else {
					if !j.join(w.st) {
						continue
					}
					w.st = j.clone()
				}
			}
			e.visited++
			if debugProf {
				if e.prof == nil {
					e.prof = map[string]int{}
				}
				pk := fmt.Sprintf("%s b%d", e.W.FuncKey(fn), w.b.Index)
				e.prof[pk]++
				if debugBlock != "" && pk == debugBlock && e.prof[pk] < 12 {
					fmt.Println("STATE", pk, k)
				}
			}
		}
		e.step(fn, w, &wl, emit)
	}
	return outs
}

func (e *Engine) rpoOf(f *ssa.Function) map[*ssa.BasicBlock]int {
	if m, ok := e.rpo[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	n := len(f.Blocks)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		n--
		m[b] = n
	}
	dfs(f.Blocks[0])
	if e.rpo == nil {
		e.rpo = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	e.rpo[f] = m
	return m
}

// prune drops dead values and unreachable facts at a block entry.
func (e *Engine) prune(s *State, b *ssa.BasicBlock) {
	live := e.liveOf(b.Parent()).in[b]
	fr := s.top()
	for v := range fr.vals {
		if live[v] {
			continue
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
			continue
		}
		delete(fr.vals, v)
	}
	e.gc(s, nil, nil)
}

// normal replaces a symbol known to be a constant by that constant.
func (s *State) normal(a *AV) *AV {
	if a == nil {
		return a
	}
	switch a.K {
	case kSym:
		if isLabel(a.Sym) {
			return a
		}
		if f, ok := s.facts[a.Sym]; ok && (f.Eq == "true" || f.Eq == "false" || f.Eq == "nil") {
			return &AV{K: kConst, C: f.Eq}
		}
	case kPred:
		if isLabel(a.Sym) {
			return a
		}
		if r := s.Eval(a); r != "" {
			return avBool(r == "true")
		}
	}
	return a
}

func (e *Engine) gc(s *State, extra []*AV, extra2 *AV) {
	for _, f := range s.stack {
		for v, a := range f.vals {
			if n := s.normal(a); n != a {
				f.vals[v] = n
			}
		}
	}
	roots := map[string]bool{}
	exact := map[string]bool{}
	var mark func(a *AV)
	var queue []string
	addRoot := func(sym string) {
		r := symRoot(strings.TrimSuffix(sym, "~"))
		if !roots[r] {
			roots[r] = true
			queue = append(queue, r)
		}
	}
	mark = func(a *AV) {
		if a == nil {
			return
		}
		switch a.K {
		case kSym, kAddr, kPred:
			exact[a.Sym] = true
			addRoot(a.Sym)
		case kTuple:
			for _, x := range a.Elems {
				mark(x)
			}
		case kFunc:
			for _, x := range a.Binds {
				mark(x)
			}
		}
	}
	for _, f := range s.stack {
		for _, a := range f.vals {
			mark(a)
		}
		for _, d := range f.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, a := range extra {
		mark(a)
	}
	mark(extra2)
	mark(s.panic)
	for k := range s.heap {
		if strings.HasPrefix(k, "G:") || isLabel(k) {
			addRoot(k)
		}
	}
	byRoot := map[string][]string{}
	for k := range s.heap {
		byRoot[symRoot(k)] = append(byRoot[symRoot(k)], k)
	}
	for len(queue) > 0 {
		r := queue[0]
		queue = queue[1:]
		for _, k := range byRoot[r] {
			mark(s.heap[k])
		}
	}
	for k := range s.heap {
		if !roots[symRoot(k)] {
			delete(s.heap, k)
		}
	}
	for k := range s.facts {
		if isLabel(k) || exact[k] || exact[strings.TrimSuffix(k, "%len")] {
			continue
		}
		if e.Spec.KeepFact != nil && roots[symRoot(strings.TrimSuffix(k, "~"))] && e.Spec.KeepFact(k) {
			continue
		}
		delete(s.facts, k)
	}
}

func (e *Engine) budget() {
	e.Steps++
	if e.Steps > e.Spec.MaxSteps {
		e.printProf()
		undecided("rule %s: analysis budget exceeded (%d steps)", e.Rule, e.Spec.MaxSteps)
	}
}

func (e *Engine) enter(st *State, from, to *ssa.BasicBlock) {
	if e.Spec.Back != nil && to.Dominates(from) {
		e.Spec.Back(&Ctx{E: e, St: st, In: from.Instrs[len(from.Instrs)-1], Fn: from.Parent()}, from, to)
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	fr := st.top()
	type up struct {
		phi *ssa.Phi
		av  *AV
	}
	var ups []up
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a := e.val(st, phi.Edges[pi])
		if _, ok := phi.Edges[pi].(*ssa.BinOp); ok && a.K == kConst && to.Dominates(from) && !shortCount(phi) {
			a = nil // a loop-carried computed constant: widened
		}
		ups = append(ups, up{phi, a})
	}
	for _, u := range ups {
		if u.av == nil {
			n := e.symName(u.phi)
			st.define(n)
			u.av = avSym(n)
		}
		if e.Spec.Value != nil {
			if a := e.Spec.Value(&Ctx{E: e, St: st, In: u.phi, Fn: u.phi.Parent()}, u.phi); a != nil {
				u.av = a
			}
		}
		fr.vals[u.phi] = u.av
	}
}

// succIndex-aware enter for If (both succs may be the same block)
func (e *Engine) step(fn *ssa.Function, w work, wl *[]work, emit func(*Outcome)) {
	st := w.st
	for i := w.idx; i < len(w.b.Instrs); i++ {
		e.budget()
		in := w.b.Instrs[i]
		x := &Ctx{E: e, St: st, In: in, Fn: fn}
		if e.Spec.Instr != nil {
			e.Spec.Instr(x, in)
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := e.val(st, in.Cond)
			r := st.Eval(c)
			if r != "false" {
				s2 := st
				if r == "" {
					s2 = st.clone()
					s2.Assume(c, true)
				}
				s2.noteBranch(e, in, "true")
				e.enter(s2, w.b, w.b.Succs[0])
				*wl = append(*wl, work{w.b.Succs[0], 0, s2})
			}
			if r != "true" {
				s2 := st
				if r == "" {
					s2 = st.clone()
					s2.Assume(c, false)
				}
				s2.noteBranch(e, in, "false")
				e.enter(s2, w.b, w.b.Succs[1])
				*wl = append(*wl, work{w.b.Succs[1], 0, s2})
			}
			return
		case *ssa.Jump:
			e.enter(st, w.b, w.b.Succs[0])
			*wl = append(*wl, work{w.b.Succs[0], 0, st})
			return
		case *ssa.Return:
			var rs []*AV
			for _, r := range in.Results {
				rs = append(rs, e.val(st, r))
			}
			emit(&Outcome{Kind: exReturn, Results: rs, St: st, At: in})
			return
		case *ssa.Panic:
			v := e.val(st, in.X)
			st.note("panic at " + e.W.InstrPos(in))
			e.unwind(fn, st, v, in, emit)
			return
		case *ssa.RunDefers:
			outs := e.runDefers(fn, st, nil, in)
			for _, o := range outs {
				if o.Kind == exReturn {
					*wl = append(*wl, work{w.b, i + 1, o.St})
				} else if o.Kind == exPanic {
					e.unwind(fn, o.St, o.Val, in, emit)
				} else {
					emit(o)
				}
			}
			return
		case *ssa.Defer:
			d := deferred{call: in, fn: e.calleeAV(st, &in.Call)}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(st, a))
			}
			fr := st.top()
			if len(fr.defers) < 8 {
				fr.defers = append(fr.defers, d)
			}
			continue
		case *ssa.Go:
			continue
		case *ssa.Call:
			outs := e.call(fn, st, in, &in.Call, nil, nil, in)
			if len(outs) == 1 && outs[0].Kind == exReturn {
				st = outs[0].St
				e.bind(st, in, outs[0].Results)
				continue
			}
			for _, o := range outs {
				switch o.Kind {
				case exReturn:
					e.bind(o.St, in, o.Results)
					*wl = append(*wl, work{w.b, i + 1, o.St})
				case exPanic:
					e.unwind(fn, o.St, o.Val, in, emit)
				case exExit:
					o.At = in
					emit(o)
				}
			}
			return
		case *ssa.Store:
			e.store(st, e.val(st, in.Addr), e.val(st, in.Val), in)
			continue
		default:
			if v, ok := in.(ssa.Value); ok {
				if e.Spec.Split != nil {
					if alts := e.Spec.Split(x, v); alts != nil {
						for _, o := range e.alts(x, st, in, alts) {
							e.bind(o.St, v, o.Results)
							*wl = append(*wl, work{w.b, i + 1, o.St})
						}
						return
					}
				}
				e.compute(x, st, v)
			}
			continue
		}
	}
}

func (s *State) noteBranch(e *Engine, in *ssa.If, way string) {
	if in.Cond.Pos().IsValid() {
		s.note("cond at " + e.W.Pos(in.Cond.Pos()) + " is " + way)
	}
}

func (e *Engine) bind(st *State, v ssa.Value, rs []*AV) {
	fr := st.top()
	switch len(rs) {
	case 0:
	case 1:
		if _, ok := v.Type().(*types.Tuple); ok {
			fr.vals[v] = avTuple(rs...)
		} else {
			fr.vals[v] = rs[0]
		}
	default:
		fr.vals[v] = avTuple(rs...)
	}
}

func (e *Engine) calleeAV(st *State, c *ssa.CallCommon) *AV {
	if c.IsInvoke() {
		return e.val(st, c.Value)
	}
	return e.val(st, c.Value)
}

// unwind: a panic leaves the function; deferred calls run first.
func (e *Engine) unwind(fn *ssa.Function, st *State, v *AV, at ssa.Instruction, emit func(*Outcome)) {
	outs := e.runDefers(fn, st, v, at)
	for _, o := range outs {
		switch o.Kind {
		case exPanic, exExit:
			emit(o)
		case exReturn: // recovered
			if fn.Recover != nil {
				var rs []*AV
				for _, in := range fn.Recover.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						for _, x := range r.Results {
							rs = append(rs, e.val(o.St, x))
						}
						emit(&Outcome{Kind: exReturn, Results: rs, St: o.St, At: r})
					} else if v, ok := in.(ssa.Value); ok {
						e.compute(&Ctx{E: e, St: o.St, In: in, Fn: fn}, o.St, v)
					}
				}
			} else {
				var rs []*AV
				sig := fn.Signature.Results()
				for i := 0; i < sig.Len(); i++ {
					rs = append(rs, zeroAV(sig.At(i).Type()))
				}
				emit(&Outcome{Kind: exReturn, Results: rs, St: o.St, At: at})
			}
		}
	}
}

// runDefers runs the pending deferred calls of the top frame. pv is the panic
// value being unwound or nil. Result kinds: exReturn = continue normally /
// recovered, exPanic = (still) panicking, exExit.
func (e *Engine) runDefers(fn *ssa.Function, st *State, pv *AV, at ssa.Instruction) []*Outcome {
	type item struct {
		st *State
		pv *AV
	}
	cur := []item{{st, pv}}
	var done []*Outcome
	for len(cur) > 0 {
		it := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
		fr := it.st.top()
		if len(fr.defers) == 0 {
			if it.pv == nil {
				done = append(done, &Outcome{Kind: exReturn, St: it.st, At: at})
			} else {
				done = append(done, &Outcome{Kind: exPanic, Val: it.pv, St: it.st, At: at})
			}
			continue
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		savedPanic := it.st.panic
		it.st.panic = it.pv
		outs := e.call(fn, it.st, d.call, &d.call.Call, d.fn, d.args, d.call)
		for _, o := range outs {
			switch o.Kind {
			case exReturn:
				np := o.St.panic
				if it.pv == nil {
					np = nil
				}
				o.St.panic = savedPanic
				cur = append(cur, item{o.St, np})
			case exPanic:
				o.St.panic = savedPanic
				cur = append(cur, item{o.St, o.Val})
			case exExit:
				done = append(done, o)
			}
		}
	}
	return done
}

// call executes one call; the caller's frame is the top of st.stack.
func (e *Engine) call(fn *ssa.Function, st *State, in ssa.Instruction, c *ssa.CallCommon, fnAV *AV, args []*AV, site ssa.Instruction) []*Outcome {
	if args == nil {
		for _, a := range c.Args {
			args = append(args, e.val(st, a))
		}
	}
	if fnAV == nil {
		fnAV = e.calleeAV(st, c)
	}
	callee := c.StaticCallee()
	var binds []*AV
	if c.IsInvoke() {
		args = append([]*AV{fnAV}, args...)
	} else if fnAV != nil && fnAV.K == kFunc {
		callee = fnAV.Fn
		binds = fnAV.Binds
	}
	x := &Ctx{E: e, St: st, In: in, Fn: fn}
	ret := func(s *State, rs ...*AV) *Outcome { return &Outcome{Kind: exReturn, Results: rs, St: s, At: in} }

	// builtins
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if e.Spec.Call != nil {
			if a := e.Spec.Call(x, c, nil, args); a != nil && a.Alts != nil {
				return e.alts(x, st, in, a.Alts)
			}
		}
		switch b.Name() {
		case "recover":
			if st.panic == nil {
				return []*Outcome{ret(st, avNil)}
			}
			v := st.panic
			st.panic = nil
			if v.K == kUnknown {
				v = avNonNil("@panicvalue")
			} else if v.K == kSym && !v.NonNil {
				nv := *v
				nv.NonNil = true
				nv.key = ""
				v = &nv
			}
			return []*Outcome{ret(st, v)}
		case "len", "cap":
			if n, ok := literalLen(c.Args[0]); ok {
				return []*Outcome{ret(st, avInt(n))}
			}
			if args[0].K == kSym || args[0].K == kAddr {
				return []*Outcome{ret(st, avSym(args[0].Sym+"%"+b.Name()))}
			}
			if s, ok := args[0].IsStr(); ok {
				return []*Outcome{ret(st, avInt(len(s)))}
			}
			if args[0].K == kConst && args[0].C == "nil" {
				return []*Outcome{ret(st, avInt(0))}
			}
			return []*Outcome{ret(st, e.fresh(st, in, c))}
		case "append":
			a := e.fresh(st, in, c)
			return []*Outcome{ret(st, a)}
		}
		v, ok := in.(ssa.Value)
		_ = v
		if ok {
			return []*Outcome{ret(st, e.fresh(st, in, c))}
		}
		return []*Outcome{ret(st)}
	}

	var act *Action
	if e.Spec.Call != nil {
		act = e.Spec.Call(x, c, callee, args)
	}
	if act != nil {
		if act.Drop {
			return nil
		}
		if act.Alts != nil {
			return e.alts(x, st, in, act.Alts)
		}
		if act.Invoke != nil && act.Invoke.K == kFunc {
			var outs []*Outcome
			skip := st.clone()
			for _, o := range e.runFunc(act.Invoke.Fn, act.InvokeArgs, act.Invoke.Binds, st, site) {
				if o.Kind == exReturn {
					o = ret(o.St, e.freshResults(o.St, in, c)...)
				}
				outs = append(outs, o)
			}
			return append(outs, ret(skip, e.freshResults(skip, in, c)...))
		}
	}
	if o := calleeObj(c); o != nil {
		switch o.FullName() {
		case "os.Exit":
			return []*Outcome{{Kind: exExit, Val: args[0], St: st, At: in}}
		case "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
			return []*Outcome{{Kind: exExit, Val: avInt(1), St: st, At: in}}
		}
	}
	inline := false
	if callee != nil && e.W.InModule(callee) && (act == nil || !act.Opaque) {
		if act != nil && act.Inline {
			inline = true
		} else if e.Spec.Inline != nil {
			inline = e.Spec.Inline(callee)
		} else {
			inline = e.rel[callee] || e.smallPredicate(callee)
		}
		if !inline && act == nil && e.W.isNewFunc(callee) {
			inline = true
		}
		if len(binds) > 0 && callee.Parent() != nil {
			inline = true // closures share variables with their creator
		}
		if callee.Synthetic != "" && len(callee.Blocks) == 1 {
			inline = true // bound-method and promotion wrappers
		}
		if e.active[callee] > 0 {
			if inline {
				e.recTrunc[e.W.FuncKey(callee)] = true
			}
			inline = false
		}
		if len(st.stack) >= e.Spec.MaxDepth || (act == nil && e.W.pureGetter(c)) {
			inline = false
		}
	}
	if inline {
		if in.Block() != nil {
			if _, isDefer := in.(*ssa.Defer); !isDefer {
				live := e.liveAfter(in)
				fr := st.top()
				for v := range fr.vals {
					if !live[v] {
						delete(fr.vals, v)
					}
				}
			}
		}
		return e.runFunc(callee, args, binds, st, site)
	}
	// opaque
	if (act == nil || !act.Pure) && !e.W.pureGetter(c) {
		mod, known := e.W.writesOf(c, callee)
		if !known {
			mod = nil
		}
		for _, a := range args {
			st.clobber(a, mod, known, 0)
		}
		for _, a := range binds {
			st.clobber(a, nil, false, 0)
		}
		if fnAV != nil && fnAV.K == kSym && !c.IsInvoke() {
			st.clobber(fnAV, nil, false, 0)
		}
	}
	var outs []*Outcome
	if e.Spec.MayPanic != nil && e.Spec.MayPanic(c) {
		s2 := st.clone()
		s2.note("call at " + e.W.InstrPos(in) + " panics")
		outs = append(outs, &Outcome{Kind: exPanic, Val: avNonNil("@panicvalue"), St: s2, At: in})
	}
	outs = append(outs, ret(st, e.freshResults(st, in, c)...))
	return outs
}

func (e *Engine) alts(x *Ctx, st *State, in ssa.Instruction, alts []Alt) []*Outcome {
	var outs []*Outcome
	for i, a := range alts {
		s := st
		if i < len(alts)-1 {
			s = st.clone()
		}
		if a.Note != "" {
			s.note(a.Note + " (" + e.W.InstrPos(in) + ")")
		}
		if a.Apply != nil {
			a.Apply(&Ctx{E: e, St: s, In: in, Fn: x.Fn})
		}
		if a.Panics {
			v := a.Val
			if v == nil {
				v = avNonNil("@panicvalue")
			}
			outs = append(outs, &Outcome{Kind: exPanic, Val: v, St: s, At: in})
		} else {
			rs := a.Results
			if rs == nil {
				if c, ok := in.(ssa.CallInstruction); ok {
					rs = e.freshResults(s, in, c.Common())
				}
			}
			outs = append(outs, &Outcome{Kind: exReturn, Results: rs, St: s, At: in})
		}
	}
	return outs
}

// smallPredicate: short helpers returning a bool or an error are followed, so
// that a condition moved into a helper is judged like one written in place.
func (e *Engine) smallPredicate(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 || rs.Len() > 2 {
		return false
	}
	b, is := rs.At(rs.Len() - 1).Type().Underlying().(*types.Basic)
	if !is || b.Info()&types.IsBoolean == 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return n <= 60
}

func (e *Engine) fresh(st *State, in ssa.Instruction, c *ssa.CallCommon) *AV {
	v, ok := in.(ssa.Value)
	if !ok {
		return avUnknown
	}
	n := e.symName(v)
	st.define(n)
	return avSym(n)
}

func (e *Engine) freshResults(st *State, in ssa.Instruction, c *ssa.CallCommon) []*AV {
	rs := c.Signature().Results()
	v, ok := in.(ssa.Value)
	if !ok {
		var out []*AV
		for i := 0; i < rs.Len(); i++ {
			out = append(out, avUnknown)
		}
		return out
	}
	n := e.symName(v)
	var out []*AV
	for i := 0; i < rs.Len(); i++ {
		ni := n
		if rs.Len() > 1 {
			ni = fmt.Sprintf("%s:%d", n, i)
		}
		st.define(ni)
		out = append(out, avSym(ni))
	}
	return out
}

func (e *Engine) store(st *State, addr, v *AV, in *ssa.Store) {
	if addr.K == kAddr {
		// forget sub-paths, and facts about the implicit initial value
		loc := addr.Sym
		st.retire(func(n string) bool { return hasPathPrefix(n, loc) }, false)
		for k := range st.heap {
			if hasPathPrefix(k, loc) {
				delete(st.heap, k)
			}
		}
		delete(st.facts, loc)
		st.heap[loc] = v
		// field-name based kill of possible aliases
		if i := strings.LastIndex(addr.Sym, "."); i > 0 {
			f := addr.Sym[i:]
			for k := range st.heap {
				if k != addr.Sym && strings.HasSuffix(k, f) && symRoot(k) != symRoot(addr.Sym) && !isCell(k) && !isCell(addr.Sym) {
					st.heap[k] = avUnknown
				}
			}
			sym := addr.Sym
			st.retire(func(n string) bool {
				return n != sym && strings.HasSuffix(n, f) && symRoot(n) != symRoot(sym) && !isCell(n) && !isCell(sym)
			}, false)
		}
	}
}

// cells are local variables: they alias nothing else
func isCell(p string) bool { return strings.HasPrefix(p, "cell:") }

// loadStruct: a struct is copied out of a variable of which fields were set
// one by one: the copy gets an identity of its own, with these fields.
func (e *Engine) loadStruct(st *State, addr *AV, t types.Type, in ssa.Value) *AV {
	if e.Spec.SameCopies || addr.K != kAddr || strings.HasSuffix(symRoot(addr.Sym), "~") {
		return nil
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return nil
	}
	sub := map[string]*AV{}
	for k, a := range st.heap {
		if strings.HasPrefix(k, addr.Sym+".") && a.K != kUnknown {
			sub[k[len(addr.Sym):]] = a
		}
	}
	if len(sub) == 0 {
		return nil
	}
	unk := false
	for k, a := range st.heap {
		if strings.HasPrefix(k, addr.Sym+".") && a.K == kUnknown {
			unk = true
		}
	}
	n := "cell:" + e.symName(in)
	if unk || symRoot(addr.Sym) == n || strings.Contains(addr.Sym, "~") {
		return nil
	}
	base, ok := st.heap[addr.Sym]
	if !ok {
		if isCell(addr.Sym) {
			base = zeroAV(t)
		} else {
			base = avSym(addr.Sym)
		}
	}
	if base.K != kConst && base.K != kSym && base.K != kAddr {
		return nil
	}
	st.define(n)
	for k, a := range sub {
		st.heap[n+k] = a
	}
	st.heap[n] = base
	return avSym(n)
}

func (e *Engine) load(st *State, addr *AV, t types.Type, in ssa.Value) *AV {
	if a := e.loadStruct(st, addr, t, in); a != nil {
		return a
	}
	if addr.K == kAddr && !strings.HasSuffix(symRoot(addr.Sym), "~") {
		path := addr.Sym
		for hop := 0; hop < 6; hop++ {
			if a, ok := st.heap[path]; ok {
				if a.K == kUnknown {
					// give it an identity from here on
					n := e.symName(in)
					st.define(n)
					a = avSym(n)
					st.heap[path] = a
				}
				return a
			}
			// a stored aggregate: continue in the value it was copied from
			next := ""
			for i := len(path) - 1; i > 0; i-- {
				if path[i] != '.' && path[i] != '[' {
					continue
				}
				if a, ok := st.heap[path[:i]]; ok {
					switch a.K {
					case kSym, kAddr:
						next = a.Sym + path[i:]
					case kConst:
						return zeroAV(t)
					default:
						n := e.symName(in)
						st.define(n)
						a := avSym(n)
						st.heap[path] = a
						return a
					}
					break
				}
			}
			if next == "" {
				break
			}
			path = next
		}
		if isCell(path) {
			return zeroAV(t)
		}
		return avSym(path)
	}
	n := e.symName(in)
	st.define(n)
	return avSym(n)
}

func fieldName(t types.Type, i int) string {
	if st, ok := deref(t).Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (e *Engine) compute(x *Ctx, st *State, v ssa.Value) {
	fr := st.top()
	if e.Spec.Value != nil {
		if a := e.Spec.Value(x, v); a != nil {
			fr.vals[v] = a
			return
		}
	}
	freshSym := func() *AV {
		n := e.symName(v)
		st.define(n)
		return avSym(n)
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		n := "cell:" + e.symName(v)
		st.define(n)
		fr.vals[v] = &AV{K: kAddr, Sym: n}
	case *ssa.MakeInterface:
		a := e.val(st, v.X)
		if a.K == kConst {
			if a.C == "nil" {
				a = avNonNil(e.symName(v))
			} else if n, ok := types.Unalias(v.X.Type()).(*types.Named); ok {
				a = &AV{K: kConst, C: a.C + "@" + n.String()}
			}
		}
		fr.vals[v] = a
	case *ssa.ChangeInterface:
		fr.vals[v] = e.val(st, v.X)
	case *ssa.ChangeType:
		fr.vals[v] = e.val(st, v.X)
	case *ssa.Convert:
		a := e.val(st, v.X)
		if a.K == kConst && (strings.HasPrefix(a.C, "s:") || strings.HasPrefix(a.C, "i:")) {
			fr.vals[v] = a
		} else if a.K == kSym {
			fr.vals[v] = a
		} else {
			fr.vals[v] = freshSym()
		}
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		var bs []*AV
		for _, b := range v.Bindings {
			bs = append(bs, e.val(st, b))
		}
		fr.vals[v] = &AV{K: kFunc, Fn: f, Binds: bs}
	case *ssa.FieldAddr:
		base := e.val(st, v.X)
		if base.K == kSym || base.K == kAddr {
			fr.vals[v] = &AV{K: kAddr, Sym: base.Sym + "." + fieldName(v.X.Type(), v.Field)}
		} else {
			fr.vals[v] = &AV{K: kAddr, Sym: e.symName(v)}
		}
	case *ssa.Field:
		base := e.val(st, v.X)
		if base.K == kSym && isCell(base.Sym) {
			fr.vals[v] = e.load(st, &AV{K: kAddr, Sym: base.Sym + "." + fieldName(v.X.Type(), v.Field)}, v.Type(), v)
		} else if base.K == kSym {
			p := base.Sym + "." + fieldName(v.X.Type(), v.Field)
			if a, ok := st.heap[p]; ok {
				fr.vals[v] = a
			} else {
				fr.vals[v] = avSym(p)
			}
		} else {
			fr.vals[v] = freshSym()
		}
	case *ssa.IndexAddr:
		base := e.val(st, v.X)
		idx := e.val(st, v.Index)
		if (base.K == kSym || base.K == kAddr) && idx.K == kConst {
			fr.vals[v] = &AV{K: kAddr, Sym: base.Sym + "[" + idx.C + "]"}
		} else if base.K == kSym || base.K == kAddr {
			// an element at an unknown index: a new location each time
			n := e.symName(v)
			st.define(n)
			fr.vals[v] = &AV{K: kAddr, Sym: n}
		} else {
			n := e.symName(v)
			st.define(n)
			fr.vals[v] = &AV{K: kAddr, Sym: n}
		}
	case *ssa.Slice:
		base := e.val(st, v.X)
		if base.K == kAddr && v.Low == nil && v.High == nil {
			fr.vals[v] = &AV{K: kAddr, Sym: base.Sym}
		} else {
			fr.vals[v] = freshSym()
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			fr.vals[v] = e.load(st, e.val(st, v.X), v.Type(), v)
		case token.NOT:
			a := e.val(st, v.X)
			switch a.K {
			case kConst:
				fr.vals[v] = avBool(a.C != "true")
			case kSym:
				fr.vals[v] = &AV{K: kPred, Sym: a.Sym, C: "true", Neg: true}
			case kPred:
				fr.vals[v] = &AV{K: kPred, Sym: a.Sym, C: a.C, Neg: !a.Neg}
			default:
				fr.vals[v] = freshSym()
			}
		default:
			fr.vals[v] = freshSym()
		}
	case *ssa.BinOp:
		fr.vals[v] = e.binop(st, v)
	case *ssa.Extract:
		t := e.val(st, v.Tuple)
		if t.K == kTuple && v.Index < len(t.Elems) {
			fr.vals[v] = t.Elems[v.Index]
		} else if t.K == kSym {
			fr.vals[v] = avSym(fmt.Sprintf("%s:%d", t.Sym, v.Index))
		} else {
			fr.vals[v] = freshSym()
		}
	case *ssa.TypeAssert:
		a := e.val(st, v.X)
		if !v.CommaOk {
			fr.vals[v] = a
		} else {
			n := e.symName(v)
			st.define(n)
			st.define(n + ":1")
			fr.vals[v] = avTuple(avSym(n+":0"), avSym(n+":1"))
		}
	case *ssa.Next:
		n := e.symName(v)
		for i := 0; i < 3; i++ {
			st.define(fmt.Sprintf("%s:%d", n, i))
		}
		fr.vals[v] = avTuple(avSym(n+":0"), avSym(n+":1"), avSym(n+":2"))
	case *ssa.Lookup:
		n := e.symName(v)
		if v.CommaOk {
			st.define(n + ":0")
			st.define(n + ":1")
			fr.vals[v] = avTuple(avSym(n+":0"), avSym(n+":1"))
		} else {
			fr.vals[v] = freshSym()
		}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		n := e.symName(v)
		st.define(n)
		fr.vals[v] = avNonNil(n)
	default:
		fr.vals[v] = freshSym()
	}
}

func (e *Engine) binop(st *State, v *ssa.BinOp) *AV {
	l, r := e.val(st, v.X), e.val(st, v.Y)
	fresh := func() *AV {
		n := e.symName(v)
		st.define(n)
		return avSym(n)
	}
	switch v.Op {
	case token.EQL, token.NEQ:
		neg := v.Op == token.NEQ
		if l.K == kConst && r.K != kConst {
			l, r = r, l
		}
		if r.K == kConst {
			if r.C == "nil" {
				if n := st.IsNil(l); n != "" {
					return avBool((n == "true") != neg)
				}
			}
			if l.K == kConst {
				return avBool((l.C == r.C) != neg)
			}
			if c, ok := st.ConstOf(l); ok {
				return avBool((c == r.C) != neg)
			}
			if l.K == kSym {
				return &AV{K: kPred, Sym: l.Sym, C: r.C, Neg: neg}
			}
			if l.K == kPred {
				// (pred == true) / (pred == false)
				n := l.Neg
				if r.C == "false" {
					n = !n
				}
				if neg {
					n = !n
				}
				return &AV{K: kPred, Sym: l.Sym, C: l.C, Neg: n}
			}
		}
		return fresh()
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		// lengths compared with 0/1 are emptiness tests
		if p := lenTest(v.Op, l, r); p != nil {
			if x := st.Eval(p); x != "" {
				return avBool(x == "true")
			}
			return p
		}
		if a, ok := intC(l); ok {
			if b, ok := intC(r); ok {
				switch v.Op {
				case token.LSS:
					return avBool(a < b)
				case token.GTR:
					return avBool(a > b)
				case token.LEQ:
					return avBool(a <= b)
				default:
					return avBool(a >= b)
				}
			}
		}
		return fresh()
	case token.ADD, token.SUB:
		if a, ok := intC(l); ok {
			if b, ok := intC(r); ok {
				if v.Op == token.ADD {
					return avInt(a + b)
				}
				return avInt(a - b)
			}
		}
		if a, ok := l.IsStr(); ok {
			if b, ok := r.IsStr(); ok && v.Op == token.ADD {
				return avStr(a + b)
			}
		}
		return fresh()
	}
	return fresh()
}

// literalLen: the length of a slice made from a list of values in the source.
func literalLen(v ssa.Value) (int, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return int(at.Len()), true
}

// shortCount: a loop counter bounded by a small constant or by the length of a
// short list of values in the source: such loops are followed turn by turn.
func shortCount(phi *ssa.Phi) bool {
	small := func(v ssa.Value) bool {
		if k, ok := constInt(v); ok {
			return k <= 8
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				n, ok := literalLen(c.Call.Args[0])
				return ok && n <= 8
			}
		}
		return false
	}
	for _, e := range phi.Edges {
		inc, ok := e.(*ssa.BinOp)
		if !ok {
			if _, isC := e.(*ssa.Const); !isC {
				return false
			}
			continue
		}
		k, isC := constInt(inc.Y)
		if inc.Op != token.ADD || inc.X != ssa.Value(phi) || !isC || k != 1 {
			return false
		}
		bounded := false
		for _, c := range []ssa.Value{phi, inc} {
			if c.Referrers() == nil {
				continue
			}
			for _, u := range *c.Referrers() {
				b, ok := u.(*ssa.BinOp)
				if !ok || b.X != c || b.Op != token.LSS && b.Op != token.LEQ {
					continue
				}
				for _, ru := range *b.Referrers() {
					if ifi, ok := ru.(*ssa.If); ok && ifi.Block() == phi.Block() && small(b.Y) {
						bounded = true
					}
				}
			}
		}
		if !bounded {
			return false
		}
	}
	return true
}

func intC(a *AV) (int, bool) {
	if a != nil && a.K == kConst && strings.HasPrefix(a.C, "i:") {
		var n int
		if _, err := fmt.Sscanf(a.C[2:], "%d", &n); err == nil {
			return n, true
		}
	}
	return 0, false
}

func lenTest(op token.Token, l, r *AV) *AV {
	if n, ok := intC(l); ok && r.K == kSym && strings.Contains(r.Sym, "%len") {
		// n op len  ==>  len op' n
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
		l, r = r, avInt(n)
	}
	n, ok := intC(r)
	if !ok || l.K != kSym || !strings.HasSuffix(strings.TrimSuffix(l.Sym, "~"), "%len") {
		return nil
	}
	zero := &AV{K: kPred, Sym: l.Sym, C: "i:0"}
	notZero := &AV{K: kPred, Sym: l.Sym, C: "i:0", Neg: true}
	switch {
	case op == token.GTR && n == 0, op == token.GEQ && n == 1:
		return notZero
	case op == token.LEQ && n == 0, op == token.LSS && n == 1:
		return zero
	}
	return nil
}

func (e *Engine) printProf() {
	if !debugProf || e.Steps < 100000 {
		return
	}
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range e.prof {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 14; i++ {
		fmt.Println("PROF", l[i].n, l[i].k)
	}
	for f := range e.Inlined {
		fmt.Println("INL", e.W.FuncKey(f))
	}
}
