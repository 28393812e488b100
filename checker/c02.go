package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: the parser's own loop is followed state by state (parsespec.go); here are the other loops of the code a parse
// runs, and the depth of its calls.

const (
	ruleDepth = "no call depth that grows with the document"
	ruleLoops = "every loop has an end"
)

// calleesOf are the functions a call can be seen to run: direct calls, and calls of a local that holds one closure.
func calleesOf(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if com.IsInvoke() {
		return nil
	}
	ld, ok := com.Value.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	cell := ld.X
	// a captured variable is the cell of the function around it
	for {
		fv, ok := cell.(*ssa.FreeVar)
		if !ok {
			break
		}
		fn := fv.Parent()
		idx := -1
		for i, v := range fn.FreeVars {
			if v == fv {
				idx = i
			}
		}
		var bound ssa.Value
		if fn.Parent() != nil && idx >= 0 {
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						bound = mc.Bindings[idx]
					}
				}
			}
		}
		if bound == nil {
			return nil
		}
		cell = bound
	}
	al, ok := cell.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var r []*ssa.Function
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			switch v := s.Val.(type) {
			case *ssa.MakeClosure:
				r = append(r, v.Fn.(*ssa.Function))
			case *ssa.Function:
				r = append(r, v)
			}
		}
	}
	return r
}

func (w *World) depth(r *Report, root *ssa.Function) {
	next := map[*ssa.Function][]*ssa.Function{}
	pos := map[[2]*ssa.Function]token.Pos{}
	var order []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if _, ok := next[fn]; ok {
			return
		}
		next[fn] = nil
		order = append(order, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := c.(*ssa.Go); isGo {
						continue
					}
					for _, f := range calleesOf(c) {
						if w.ours(f) && len(f.Blocks) > 0 {
							next[fn] = append(next[fn], f)
							pos[[2]*ssa.Function{fn, f}] = in.Pos()
							visit(f)
						}
					}
				}
			}
		}
	}
	visit(root)
	for _, fn := range order {
		item := fn.RelString(nil)
		r.ok(ruleDepth, item)
		// a way back to fn
		seen := map[*ssa.Function]bool{}
		var back func(g *ssa.Function, path []string) []string
		back = func(g *ssa.Function, path []string) []string {
			for _, h := range next[g] {
				if h == fn {
					return append(path, h.Name())
				}
				if !seen[h] {
					seen[h] = true
					if p := back(h, append(path, h.Name())); p != nil {
						return p
					}
				}
			}
			return nil
		}
		if p := back(fn, []string{fn.Name()}); p != nil {
			r.add(ruleDepth, item, "violation", "the parser calls itself ("+strings.Join(p, " -> ")+"): the depth of its calls is that of the document", w.where(fn.Pos(), fn))
		}
	}
	r.count("functions of the parser", len(order))
}

// otherLoops looks at the loops of everything a parse can run in this module, apart from those followed state by state.
func (w *World) otherLoops(r *Report, root *ssa.Function, followed map[string]bool) {
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !w.ours(fn) {
			return
		}
		seen[fn] = true
		order = append(order, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
			}
		}
	}
	visit(root)
	n := 0
	for _, fn := range order {
		fi := infoOf(fn)
		var heads []*ssa.BasicBlock
		for h := range fi.loops {
			heads = append(heads, h)
		}
		sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
		for i, h := range heads {
			n++
			item := fmt.Sprintf("loop %d of %s", i+1, fn.RelString(nil))
			if followed["loop of "+fn.RelString(nil)] {
				continue
			}
			switch endOf(fi.loops[h]) {
			case "ends":
				r.ok(ruleLoops, item)
			case "never":
				r.add(ruleLoops, item, "violation", "a loop without a way out", w.where(loopPos(h), fn))
			default:
				r.add(ruleLoops, item, "undecided", "what bounds the loop is not recognised", w.where(loopPos(h), fn))
			}
		}
	}
	r.count("loops looked at", n)
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return h.Parent().Pos()
}

// endOf says whether a loop ends: a walk over a list, text or lookup, or a counter that goes up to a fixed bound.
func endOf(l *loopInfo) string {
	exits := false
	for b := range l.body {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Return, *ssa.Panic:
				exits = true
			}
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				exits = true
			}
		}
	}
	if !exits {
		return "never"
	}
	inside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return "ends"
		}
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return "?"
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return "?"
	}
	grows := func(v ssa.Value, dir token.Token) bool {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			// the head of a range over a list compares the step itself
			if b, ok := v.(*ssa.BinOp); ok && b.Block() == l.head && b.Op == token.ADD {
				if p, ok := b.X.(*ssa.Phi); ok && p.Block() == l.head && isPosConst(b.Y) {
					for i, e := range p.Edges {
						if l.body[l.head.Preds[i]] && e != ssa.Value(b) {
							return false
						}
					}
					return dir == token.ADD
				}
			}
			return false
		}
		if ph.Block() != l.head {
			return false
		}
		for i, e := range ph.Edges {
			if !l.body[l.head.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) || b.Op != dir || !isPosConst(b.Y) {
				return false
			}
		}
		return true
	}
	fixed := func(v ssa.Value) bool {
		if !inside(v) {
			return true
		}
		// the length of a list or text that the loop does not replace
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return !inside(c.Call.Args[0])
			}
		}
		return false
	}
	// the way out has to be the failing comparison
	out := func(b *ssa.BasicBlock) bool { return !l.body[b] }
	switch cmp.Op {
	case token.LSS, token.LEQ, token.NEQ:
		if out(l.head.Succs[1]) && (grows(cmp.X, token.ADD) && fixed(cmp.Y) && cmp.Op != token.NEQ || cmp.Op == token.LSS && grows(cmp.Y, token.SUB) && fixed(cmp.X)) {
			return "ends"
		}
	case token.GTR, token.GEQ:
		if out(l.head.Succs[1]) && (grows(cmp.Y, token.ADD) && fixed(cmp.X) || grows(cmp.X, token.SUB) && fixed(cmp.Y)) {
			return "ends"
		}
	}
	return "?"
}

func isPosConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && isIntType(c.Type()) && c.Int64() > 0
}

func init() {
	parsePart("C02", func(w *World, r *Report, p *parseRun) {
		if p.msg != "" {
			r.add(ruleProgress, parseItem, "undecided", p.msg, "")
			return
		}
		p.spec.progress(r)
		w.depth(r, p.fn)
		followed := map[string]bool{}
		for _, n := range p.spec.names {
			followed[n] = true
		}
		w.otherLoops(r, p.fn, followed)
		for _, o := range p.outs {
			if o.kind == "undecided" {
				if strings.HasPrefix(o.msg, "recursive call of ") && o.fn != nil && w.ours(o.fn) {
					r.add(ruleDepth, o.fn.RelString(nil), "violation", "the parser calls itself: "+o.msg+", so the depth of its calls is that of the document", w.where(o.pos, o.fn))
					continue
				}
				w.abnormal(r, ruleProgress, parseItem, o)
			}
		}
		p.counts(r)
	})
}
