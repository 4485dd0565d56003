package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// natural loop of a header: the blocks that can reach a back edge to it.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	back := false
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back = true
			add(p)
		}
	}
	if !back {
		return nil
	}
	return in
}

// innermostLoop returns the header of the innermost loop around b (nil: none).
func innermostLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	var bestN int
	for _, h := range b.Parent().Blocks {
		l := loopBlocks(h)
		if l != nil && l[b] && (best == nil || len(l) < bestN) {
			best, bestN = h, len(l)
		}
	}
	return best
}

// wholeRange describes a loop that visits every element of a slice in order:
// index from 0 (or start) by 1 while below len(slice).
type wholeRange struct {
	Start ssa.Value // nil: zero
	Over  ssa.Value // the slice whose len bounds the loop (nil for map ranges)
	IsMap bool
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

func lenArg(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	return c.Call.Args[0]
}

// loopRange recognises the counting scheme of the loop with header h.
func loopRange(h *ssa.BasicBlock) *wholeRange {
	blocks := loopBlocks(h)
	if blocks == nil {
		return nil
	}
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			return &wholeRange{IsMap: true, Over: n.Iter.(*ssa.Range).X}
		}
	}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var start ssa.Value
		var step *ssa.BinOp
		bad := false
		for i, e := range phi.Edges {
			if h.Dominates(h.Preds[i]) {
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != phi {
					bad = true
					continue
				}
				if n, ok := constInt(b.Y); !ok || n != 1 {
					bad = true
					continue
				}
				if step != nil && step != b {
					bad = true
				}
				step = b
			} else {
				if start != nil && start != e {
					bad = true
				}
				start = e
			}
		}
		if bad || step == nil || start == nil {
			continue
		}
		// the test: idx < len(x), where idx is the phi (classic) or step (range form)
		for b := range blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || blocks[b.Succs[1]] || !blocks[b.Succs[0]] {
				continue
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS {
				continue
			}
			over := lenArg(c.Y)
			if over == nil {
				continue
			}
			n, isC := constInt(start)
			switch {
			case c.X == ssa.Value(step) && isC && n == -1:
				return &wholeRange{Over: over}
			case c.X == ssa.Value(phi) && isC && n == 0:
				return &wholeRange{Over: over}
			case c.X == ssa.Value(phi) && !isC:
				return &wholeRange{Over: over, Start: start}
			}
		}
	}
	return nil
}
