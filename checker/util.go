package main

import (
	"go/constant"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func constantStringVal(c *ssa.Const) string {
	if c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func forEachInstr(f *ssa.Function, fn func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

// Memo computes a world-wide fact once.
func (w *World) Memo(key string, f func() interface{}) interface{} {
	if w.memo == nil {
		w.memo = map[string]interface{}{}
	}
	if v, ok := w.memo[key]; ok {
		return v
	}
	v := f()
	w.memo[key] = v
	return v
}
