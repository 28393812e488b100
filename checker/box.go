package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A box is a document or an array in an arbitrary state: the constructor is interpreted, and the cells its
// operations share are then given arbitrary content of the kind their type says (a key list, a lookup of values,
// a value list), related by the agreement of C13.
type box struct {
	n    *types.Named
	st   *State
	ptr  *Term
	self *Term
	mapC *Term // object holding the lookup
	keyC *Term // cell holding the key list
	valC *Term // cell holding the value list
	m0   *Term
	K0   *Term // key sequence
	V0   *Term // value sequence
	ks   *Term // key list as a slice
	vs   *Term
	lost []*Term // other cells the operations change
}

const freshOp = "fresh"

// freshContainers makes constructors called inside an operation yield a document or array that records what is
// done to it.
func (w *World) freshContainers(e *Eng) {
	prev := e.intercept
	e.intercept = func(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool) {
		if e.fresh && fn.Pkg != nil && fn.Pkg == w.json && fn.Signature.Results().Len() == 1 && fn.Parent() == nil {
			rt := fn.Signature.Results().At(0).Type()
			t := rt
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			n := w.handleType(t)
			none := true
			for _, a := range args {
				if a.op != "nil" {
					none = false
				}
			}
			if n != nil && n != w.V && none && strings.HasPrefix(fn.Name(), "New") {
				log := st.alloc(site+"!log", types.NewSlice(anyType), mkSeq())
				h := mkFn(freshOp, n, log)
				if rt != t {
					return []outcome{ret(st, st.alloc(site+"!fresh", n, h))}, true
				}
				return []outcome{ret(st, h)}, true
			}
		}
		if prev != nil {
			return prev(st, site, fn, args, pos)
		}
		return nil, false
	}
	ph := e.handles
	e.handles = func(st *State, site string, callee *Term, sig *types.Signature, args []*Term, pos token.Pos) ([]outcome, bool) {
		if callee.op == "sel" && callee.args[0].op == "fn" && callee.args[0].s == freshOp {
			h := callee.args[0]
			n := h.typ.(*types.Named)
			f := n.Underlying().(*types.Struct).Field(fieldIdx(callee))
			log := h.args[0]
			if !isReadName(f.Name()) {
				if f.Name() != "RemoveKey" && f.Name() != "RemoveValueAtIndex" && f.Name() != "SetValueAtIndex" {
					st.store(log, mkScat(st.load(log, nil), mkSeq(mkFn("ev:"+f.Name(), nil, args...))))
					if sig.Results().Len() == 0 {
						return []outcome{ret(st)}, true
					}
				}
				return nil, false
			}
			// reads see what was done so far
			h2 := mkFn("freshnow", n, h, st.load(log, nil))
			return w.handleCall(e, st, site, h2, n, f.Name(), sig, args, pos), true
		}
		return ph(st, site, callee, sig, args, pos)
	}
}

// logOf is what was done to a container made by the operation.
func logOf(st *State, v *Term) (*Term, bool) {
	if v.op == "addr" || v.op == "obj" {
		v = st.load(v, nil)
	}
	if v.op == "fn" && v.s == freshOp {
		return st.load(v.args[0], nil), true
	}
	return nil, false
}

func isFreshEmpty(st *State, v *Term) bool {
	l, ok := logOf(st, v)
	return ok && l.op == "seq" && len(l.args) == 0
}

// reachCells are the cells reachable from a value.
func reachCells(st *State, roots ...*Term) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == "obj" && !seen[x] {
				seen[x] = true
				r = append(r, x)
				if c, ok := st.heap[x]; ok {
					visit(c)
				}
			}
			return true
		})
	}
	for _, t := range roots {
		visit(t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (w *World) newBox(e *Eng, ctor string, n *types.Named) (*box, string) {
	fn := w.fn(ctor)
	if fn == nil {
		return nil, ctor + " not found"
	}
	e.fresh = false
	st := newState()
	var b *box
	for _, o := range e.callFn(st, "root", fn, nil, nil, nil) {
		if o.kind != "ret" {
			return nil, ctor + ": " + o.kind + " " + o.msg
		}
		if b != nil {
			return nil, ctor + " can end in several ways"
		}
		b = &box{n: n, st: o.st, ptr: o.vals[0], self: o.st.load(o.vals[0], n)}
	}
	if b == nil || b.self.op != "struct" {
		return nil, ctor + " returns an unknown structure"
	}
	keyT := types.NewSlice(tString)
	valT := types.NewSlice(types.NewPointer(w.V))
	mapT := types.NewMap(tString, types.NewPointer(w.V))
	base := b.ptr.args[0]
	var cells []*Term
	for _, c := range reachCells(b.st, b.ptr) {
		if c != base {
			cells = append(cells, c)
		}
	}
	// backing stores and cells
	backing := map[*Term]bool{}
	for _, c := range cells {
		if v := b.st.heap[c]; v != nil && v.op == "slice" {
			backing[v.args[0]] = true
		}
	}
	for _, c := range cells {
		v := b.st.heap[c]
		if v == nil || c.typ == nil || backing[c] {
			continue
		}
		switch {
		case types.Identical(c.typ, mapT) && (v.op == "mempty" || v.op == "nil"):
			if b.mapC != nil {
				return nil, "two lookups"
			}
			b.mapC = c
		case types.Identical(c.typ, keyT) && (v.op == "slice" || v.op == "nil"):
			if b.keyC != nil {
				return nil, "two key lists"
			}
			b.keyC = c
		case types.Identical(c.typ, valT) && (v.op == "slice" || v.op == "nil"):
			if b.valC != nil {
				return nil, "two value lists"
			}
			b.valC = c
		}
	}
	// the lookup object: a map cell holds a pointer to it
	for _, c := range cells {
		if v := b.st.heap[c]; v != nil && v.op == "mempty" && c != b.mapC {
			if b.mapC != nil {
				return nil, "two lookups"
			}
			if v.typ != nil && types.Identical(v.typ.Underlying(), mapT) {
				b.mapC = c
			}
		}
	}
	if b.mapC != nil {
		b.m0 = mkSym("lookup", mapT)
		b.st.heap[b.mapC] = b.m0
	}
	if b.keyC != nil {
		b.K0 = mkSym("keys", keyT)
		o := mkObj("keys!", keyT)
		b.st.heap[o] = b.K0
		b.ks = mk("slice", "?", nil, nil, nil, nil, o, mkInt(0), mkLen(b.K0))
		b.st.heap[b.keyC] = b.ks
		if b.m0 != nil {
			has := mk("mhas", "", tBool, nil, nil, nil, b.m0, mkElem(b.K0, kappa, tString))
			b.st.facts.univ[mk("univ", "+", nil, nil, nil, nil, mkInt(0), mkLen(b.K0), has)] = true
		}
	}
	if b.valC != nil {
		pv := types.NewPointer(w.V)
		if b.m0 != nil && b.K0 != nil {
			b.V0 = mkSmap(mkInt(0), mkLen(b.K0), []smapCase{{piece: mkSeq(mk("mget", "", pv, nil, nil, nil, b.m0, mkElem(b.K0, kappa, tString)))}})
		} else {
			b.V0 = mkSym("values", valT)
		}
		o := mkObj("values!", valT)
		b.st.heap[o] = b.V0
		b.vs = mk("slice", "?", nil, nil, nil, nil, o, mkInt(0), mkLen(b.V0))
		b.st.heap[b.valC] = b.vs
	}
	if n == w.M && (b.m0 == nil || b.K0 == nil) || n == w.A && b.valC == nil {
		return nil, "the representation of " + n.Obj().Name() + " is not a lookup with a key list, or a value list"
	}
	b.self = b.st.load(b.ptr, n)
	b.st.frames = nil
	b.st.ghosts = map[string]*Term{}
	// first pass: which other cells do the operations change?
	e.fresh = true
	known := map[*Term]bool{base: true, b.mapC: true, b.keyC: true, b.valC: true}
	changed := map[*Term]bool{}
	for _, op := range fieldsOf(n) {
		st := b.st.clone()
		var args []*Term
		for i := 0; i < op.sig.Params().Len(); i++ {
			args = append(args, w.boxArg(b, st, op, i))
		}
		e.steps = 0
		for _, o := range e.callTerm(st, "op."+op.name, mkSel(b.self, op.k, op.sig), op.sig, args, nil) {
			if o.st == nil {
				continue
			}
			for c, v := range o.st.heap {
				if old, ok := b.st.heap[c]; ok && old != v && c.op == "obj" && !known[c] && !strings.HasSuffix(c.s, "!") {
					changed[c] = true
				}
			}
		}
	}
	for c := range changed {
		b.lost = append(b.lost, c)
	}
	sort.Slice(b.lost, func(i, j int) bool { return b.lost[i].id < b.lost[j].id })
	for i, c := range b.lost {
		t := c.typ
		b.st.heap[c] = mkFn("lost", t, mkInt(int64(i)))
	}
	b.self = b.st.load(b.ptr, n)
	return b, ""
}

var boxArgNames = "args"

// boxArg is an unknown argument of an operation.
func (w *World) boxArg(b *box, st *State, op field, i int) *Term {
	t := op.sig.Params().At(i).Type()
	name := fmt.Sprintf("arg%d", i)
	if i == 0 && isStringType(t) {
		name = "key"
	}
	return w.argFor(st, name, t)
}

// boxRun is one operation on a box.
type boxRun struct {
	b    *box
	op   field
	item string
	args []*Term
	pre  *State
	outs []outcome
}

func (w *World) runBox(e *Eng, b *box, op field, prep func(st *State, args []*Term) []*Term, label string) *boxRun {
	st := b.st.clone()
	r := &boxRun{b: b, op: op, item: b.n.Obj().Name() + "." + op.name + label}
	for i := 0; i < op.sig.Params().Len(); i++ {
		r.args = append(r.args, w.boxArg(b, st, op, i))
	}
	if prep != nil {
		r.args = prep(st, r.args)
	}
	r.pre = st.clone()
	e.steps = 0
	e.fresh = true
	for _, o := range e.callTerm(st, "op."+op.name, mkSel(b.self, op.k, op.sig), op.sig, r.args, nil) {
		if b.feasible(o.st) {
			r.outs = append(r.outs, o)
		}
	}
	return r
}

// feasible uses the agreement of lookup and keys to discard paths that no document takes.
func (b *box) feasible(st *State) bool {
	if st == nil || b.m0 == nil || b.K0 == nil {
		return true
	}
	n := mkLen(b.K0)
	for t, v := range st.facts.truth {
		if t.op != "mhas" || t.args[0] != b.m0 {
			continue
		}
		k := t.args[1]
		if v {
			if k.op == "elem" && k.args[0] == b.K0 {
				continue
			}
			if _, hi := st.facts.rng(n); hi != nil && hi.Sign() == 0 {
				return false
			}
			if b.nowhere(st, k) {
				return false
			}
			continue
		}
		for q, qv := range st.facts.truth {
			if qv && q.op == "eq" {
				x, y := q.args[0], q.args[1]
				if y == k {
					x, y = y, x
				}
				if x == k && y.op == "elem" && y.args[0] == b.K0 {
					return false
				}
			}
		}
	}
	return true
}

// nowhere: the path looked at every key and found none equal to k.
func (b *box) nowhere(st *State, k *Term) bool {
	n := mkLen(b.K0)
	for u := range st.facts.univ {
		if u.s != "-" || u.args[2].op != "eq" {
			continue
		}
		x, y := u.args[2].args[0], u.args[2].args[1]
		if y == k {
			x, y = y, x
		}
		if x != k || y.op != "elem" || y.args[0] != b.K0 {
			continue
		}
		l := toLin(y.args[1])
		c := l.m[kappa]
		rest := tSub(y.args[1], tScale(kappa, c))
		var lo, hi *Term // positions looked at: [lo, hi)
		switch c {
		case 1:
			lo, hi = tAdd(u.args[0], rest), tAdd(u.args[1], rest)
		case -1:
			lo, hi = tAddC(tSub(rest, u.args[1]), 1), tAddC(tSub(rest, u.args[0]), 1)
		default:
			continue
		}
		_, first := st.facts.rng(lo)
		last, _ := st.facts.rng(tSub(hi, n))
		if first != nil && first.Sign() <= 0 && last != nil && last.Sign() >= 0 {
			return true
		}
	}
	return false
}

// has: was the key there, by what the path found in the key list? 1 yes, -1 no, 0 not told.
func (b *box) has(st *State, k *Term) int {
	if b.slotOf(st, k) != nil {
		return 1
	}
	if _, hi := st.facts.rng(mkLen(b.K0)); b.nowhere(st, k) || hi != nil && hi.Sign() == 0 {
		return -1
	}
	return 0
}

// slotOf: the position at which the path found the key.
func (b *box) slotOf(st *State, k *Term) *Term {
	for q, qv := range st.facts.truth {
		if qv && q.op == "eq" {
			x, y := q.args[0], q.args[1]
			if y == k {
				x, y = y, x
			}
			if x == k && y.op == "elem" && y.args[0] == b.K0 {
				return y.args[1]
			}
		}
	}
	return nil
}

// expandSeq writes a sequence out for a box of n entries: every way the pieces can turn out.
// ok is false when a part of it is not understood.
func (b *box) expandSeq(st *State, s, size *Term, n int) (alts [][]*Term, ok bool) {
	sub := func(t *Term) *Term { return substMap(t, map[*Term]*Term{size: mkInt(int64(n))}, map[*Term]*Term{}) }
	var rec func(s *Term, f *Facts) ([][]*Term, bool)
	rec = func(s *Term, f *Facts) ([][]*Term, bool) {
		switch s.op {
		case "seq":
			return [][]*Term{s.args}, true
		case "scat":
			acc := [][]*Term{nil}
			for _, p := range s.args {
				a, ok := rec(p, f)
				if !ok {
					return nil, false
				}
				var next [][]*Term
				for _, x := range acc {
					for _, y := range a {
						next = append(next, append(append([]*Term{}, x...), y...))
					}
				}
				acc = next
				if len(acc) > 4096 {
					return nil, false
				}
			}
			return acc, true
		case "smap":
			lo, ok1 := sub(s.args[0]).smallInt()
			hi, ok2 := sub(s.args[1]).smallInt()
			if !ok1 || !ok2 || hi-lo > 2100 {
				return nil, false
			}
			acc := [][]*Term{nil}
			for i := lo; i < hi; i++ {
				var step [][]*Term
				for _, c := range smapCases(s) {
					g := f.clone()
					can := true
					for _, q := range c.guards {
						if !g.assume(sub(subst(q, kappa, mkInt(i))), true) {
							can = false
							break
						}
					}
					if !can {
						continue
					}
					a, ok := rec(sub(subst(c.piece, kappa, mkInt(i))), g)
					if !ok {
						return nil, false
					}
					step = append(step, a...)
				}
				var next [][]*Term
				for _, x := range acc {
					for _, y := range step {
						next = append(next, append(append([]*Term{}, x...), y...))
					}
				}
				acc = next
				if len(acc) > 4096 {
					return nil, false
				}
			}
			return acc, true
		case "sslice":
			lo, ok1 := sub(s.args[1]).smallInt()
			hi, ok2 := sub(s.args[2]).smallInt()
			if !ok1 || !ok2 {
				return nil, false
			}
			a, ok := rec(s.args[0], f)
			if !ok {
				return nil, false
			}
			var r [][]*Term
			for _, x := range a {
				if lo < 0 || hi > int64(len(x)) || lo > hi {
					return nil, false
				}
				r = append(r, x[lo:hi])
			}
			return r, true
		}
		if b != nil && (s == b.K0 || s == b.V0) {
			var r []*Term
			t := tString
			var et types.Type = t
			if s == b.V0 {
				et = nil
			}
			for i := 0; i < n; i++ {
				r = append(r, mkElem(s, mkInt(int64(i)), et))
			}
			return [][]*Term{r}, true
		}
		return nil, false
	}
	f := newFacts()
	if !b.instance(st, f, size, n) {
		return nil, true
	}
	a, ok := rec(s, f)
	if ok {
		for i := range a {
			for j := range a[i] {
				a[i][j] = sub(a[i][j])
			}
		}
	}
	return a, ok
}

// instance carries the facts of a path over to a box of n entries; false when the path needs another number.
func (b *box) instance(st *State, f *Facts, size *Term, n int) bool {
	if !st.facts.clone().addBound(size, big.NewInt(int64(n)), big.NewInt(int64(n))) {
		return false
	}
	return true
}

// wrongSlot: a list is changed at a position where the path knows another key.
func (b *box) wrongSlot(st *State, key *Term, lists ...*Term) bool {
	found := false
	at := func(u *Term) {
		if st.facts.eval(mkEq(mkElem(b.K0, u, tString), key)) == -1 {
			found = true
		}
	}
	for _, l := range lists {
		if l == nil {
			continue
		}
		walk(l, func(x *Term) bool {
			switch {
			case x.op == "supd":
				at(x.args[1])
			case x.op == "sslice" && (x.args[0] == b.K0 || x.args[0] == b.V0) && x.args[1] == mkInt(0):
				at(x.args[2])
			}
			return true
		})
	}
	return found
}
