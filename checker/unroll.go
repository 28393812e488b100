package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const unrollMax = 32

// fewRounds: a counted loop whose bounds are plain numbers where it is entered (a walk over a written-out list).
func (e *Eng) fewRounds(st *State, l *loopInfo) bool {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	inside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	known := func(v ssa.Value) bool {
		if inside(v) {
			return false
		}
		t := e.val(st, v)
		if t == nil {
			return false
		}
		k, ok := t.smallInt()
		return ok && k <= unrollMax && k >= -unrollMax
	}
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == l.head && b.Op == token.ADD {
			v = b.X
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != l.head {
			return false
		}
		t := e.val(st, ph)
		if t == nil {
			return false
		}
		if k, ok := t.smallInt(); !ok || k > unrollMax || k < -unrollMax {
			return false
		}
		for i, x := range ph.Edges {
			if !l.body[l.head.Preds[i]] {
				continue
			}
			b, ok := x.(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(ph) {
				return false
			}
			if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil {
				return false
			}
		}
		return true
	}
	return counter(cmp.X) && known(cmp.Y) || counter(cmp.Y) && known(cmp.X)
}

// unroll follows such a loop round by round.
func (e *Eng) unroll(st *State, l *loopInfo) []exit {
	first := 0
	for first < len(l.head.Instrs) {
		if _, ok := l.head.Instrs[first].(*ssa.Phi); !ok {
			break
		}
		first++
	}
	ctx := st.top().ctx
	depth := len(st.frames)
	tag := func(s *State, c string) {
		f := s.top()
		s.frames[len(s.frames)-1] = &frame{f.fi, f.env, c}
	}
	var res []exit
	cur := []*State{st}
	for round := 0; len(cur) > 0; round++ {
		if round > 2*unrollMax+1 || len(cur) > 64 {
			return undecided(st, loopPos(l.head), l.head.Parent(), "too many ways through a counted loop")
		}
		var next []*State
		for _, s := range cur {
			tag(s, ctxID(ctx+fmt.Sprintf("#%d", round)))
			for _, x := range e.runBlock(s, l.head, first, l) {
				if x.st != nil && len(x.st.frames) == depth {
					tag(x.st, ctx)
				}
				if x.kind == "back" {
					e.setPhis(x.st, x.from, l.head)
					next = append(next, x.st)
					continue
				}
				res = append(res, x)
			}
		}
		cur = next
	}
	return res
}
