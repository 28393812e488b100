package main

import (
	"golang.org/x/tools/go/ssa"
)

// loopInfo is a natural loop.
type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	vals   []ssa.Value
	loops  map[*ssa.BasicBlock]*loopInfo
	liveIn map[*ssa.BasicBlock][]int // values live on entry of a block (phis of the block excluded)
	bad    string
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, liveIn: map[*ssa.BasicBlock][]int{}}
	fnInfos[fn] = fi
	add := func(v ssa.Value) {
		fi.num[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops; blocks unreachable from entry are ignored
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	// retreating edges w.r.t. dfs order must be back edges (reducible)
	for b := range reach {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] && reach[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// irreducibility: a cycle without a dominating head
	color := map[*ssa.BasicBlock]int{}
	var d2 func(b *ssa.BasicBlock)
	d2 = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if color[s] == 1 && !s.Dominates(b) {
				fi.bad = "irreducible control flow"
			}
			if color[s] == 0 {
				d2(s)
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		d2(fn.Blocks[0])
	}
	// liveness
	live := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				for k := range live[s] {
					cur[k] = true
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
						for _, in := range s.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if n, ok := fi.num[ph.Edges[pi]]; ok {
								cur[n] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, fi.num[v])
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op == nil {
						continue
					}
					if n, ok := fi.num[*op]; ok {
						cur[n] = true
					}
				}
			}
			for k := range cur {
				if !live[b][k] {
					live[b][k] = true
					changed = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		var l []int
		for k := 0; k < len(fi.vals); k++ {
			if live[b][k] {
				l = append(l, k)
			}
		}
		fi.liveIn[b] = l
	}
	return fi
}
