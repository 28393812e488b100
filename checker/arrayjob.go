package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// The array job (C09): every operation of Array on an array in an arbitrary state.

type judge struct {
	bad, und func(f string, a ...interface{})
	r        *Report
	where    string
}

func (w *World) judge(r *Report, rule, item, where string, st *State) judge {
	return judge{
		r: r, where: where,
		bad: func(f string, a ...interface{}) {
			s := "violation"
			if !sure(st) {
				s = "undecided"
			}
			r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
			if s == "violation" {
				dumpFacts(st)
			}
		},
		und: func(f string, a ...interface{}) {
			r.add(rule, item, "undecided", fmt.Sprintf(f, a...), where)
		},
	}
}

// sayOr reports a difference when the term is understood.
func (j judge) differ(what string, got, want *Term) {
	if understood(got) && !got.contains(mkFn("clobbered", nil)) {
		j.bad("%s is %s, not %s", what, short(got), short(want))
	} else {
		j.und("%s: %s against %s", what, short(got), short(want))
	}
}

// listDiffers reports two descriptions of the value list that do not agree.
func (b *box) listDiffers(j judge, st *State, got, want *Term) {
	if !understood(got) || got.contains(mkFn("clobbered", nil)) {
		j.differ("the list", got, want)
		return
	}
	same, at := b.compare(st, got, want, mkLen(b.V0))
	switch same {
	case 0:
		j.und("the list: %s against %s", short(got), short(want))
	case -1:
		j.bad("%s, the list is %s, not %s", at, short(got), short(want))
	}
}

// listNow is the value list after an outcome.
func (b *box) listNow(st *State) *Term { return st.seqOf(st.load(mkAddr(b.valC), nil)) }

func isAppend(op field) bool { return strings.HasPrefix(op.name, "Append") }

func indexed(op field) bool {
	if op.sig.Params().Len() == 0 {
		return false
	}
	t, ok := op.sig.Params().At(0).Type().Underlying().(*types.Basic)
	return ok && t.Kind() == types.Int && !isAppend(op)
}

// inside: is the index a position of the array on this path?
func (b *box) inside(st *State, i *Term) int {
	lo := st.facts.eval(tLeq(mkInt(0), i))
	hi := st.facts.eval(tLess(i, mkLen(b.V0)))
	if lo < 0 || hi < 0 {
		return -1
	}
	if lo > 0 && hi > 0 {
		return 1
	}
	return 0
}

func (w *World) arrayRuns(rep *Report, e *Eng, rule string, f func(c *mapCase)) {
	w.freshContainers(e)
	b, why := w.newBox(e, "NewArray", w.A)
	if b == nil {
		rep.add(rule, "Array", "undecided", why, "")
		return
	}
	n := 0
	for _, op := range fieldsOf(w.A) {
		n++
		f(&mapCase{r: w.runBox(e, b, op, nil, "")})
	}
	rep.count("array operations", n)
}

const (
	ruleAppend = "appending adds exactly the given value at the end"
	ruleIndex  = "a position is read, written or removed exactly when it exists"
	ruleList   = "a typed list has one entry per element, in order"
	ruleCount  = "length and value list describe the elements"
	ruleStart  = "an array made of values holds exactly these values"
)

// appended judges an append.
func (w *World) appended(r *Report, e *Eng, c *mapCase, o outcome) {
	b, op, item := c.r.b, c.r.op, c.r.item
	if o.kind != "ret" {
		w.abnormal(r, ruleAppend, item, o)
		return
	}
	st := o.st
	j := w.judge(r, ruleAppend, item, w.boxWhere(b, op), st)
	r.ok(ruleAppend, item)
	V := b.listNow(st)
	n := mkLen(b.V0)
	if V == b.V0 {
		j.bad("appends nothing")
		return
	}
	if st.facts.eval(mkEq(mkLen(V), tAddC(n, 1))) != 1 {
		j.differ("the list", V, mkScat(b.V0, mkSeq(mkSym("value", nil))))
		return
	}
	p := st.facts.elemOf(V, n, types.NewPointer(w.V))
	if V != mkScat(b.V0, mkSeq(p)) && !sameSeq(st, V, mkScat(b.V0, mkSeq(p))) {
		b.listDiffers(j, st, V, mkScat(b.V0, mkSeq(p)))
		return
	}
	w.isGiven(r, e, st, p, c, j, ruleAppend)
}

func (f *Facts) elemOf(s, i *Term, t types.Type) *Term { return mkElem(s, i, t) }

// isGiven: the stored element is the value given to the operation.
func (w *World) isGiven(r *Report, e *Eng, st *State, p *Term, c *mapCase, j judge, rule string) {
	op := c.r.op
	np := op.sig.Params().Len()
	if np > 0 {
		at := op.sig.Params().At(np - 1).Type()
		arg := c.r.args[np-1]
		if types.Identical(at, types.NewPointer(w.V)) {
			if p != arg {
				j.differ("the element", p, arg)
			}
			return
		}
		if types.Identical(at, w.V) {
			if p.op == "nil" {
				j.bad("stores nil")
				return
			}
			if x := st.load(p, w.V); x != arg {
				j.differ("the element", x, arg)
			}
			return
		}
	}
	w.holds(r, e, st, p, c, j.bad, j.und, func(g outcome) { w.abnormal(r, rule, c.r.item, g) })
}

// positional judges an operation on one position.
func (w *World) positional(r *Report, e *Eng, c *mapCase, o outcome) {
	b, op, item := c.r.b, c.r.op, c.r.item
	if o.kind != "ret" {
		w.abnormal(r, ruleIndex, item, o)
		return
	}
	st := o.st
	j := w.judge(r, ruleIndex, item, w.boxWhere(b, op), st)
	r.ok(ruleIndex, item)
	i := c.r.args[0]
	in := b.inside(st, i)
	V := b.listNow(st)
	n := mkLen(b.V0)
	if strings.HasPrefix(op.name, "Set") || strings.HasPrefix(op.name, "Remove") {
		rt := op.sig.Results()
		var okV, errV *Term
		for k := 0; k < rt.Len() && k < len(o.vals); k++ {
			if isBoolType(rt.At(k).Type()) {
				okV = o.vals[k]
			} else {
				errV = o.vals[k]
			}
		}
		done := 0
		if okV != nil {
			done = st.facts.eval(okV)
		}
		fail := 0
		if errV != nil {
			if st.facts.nonNil(errV) {
				fail = 1
			} else if st.facts.isNil(errV) {
				fail = -1
			}
		}
		switch {
		case in == 0:
			if done == 1 || fail == -1 {
				j.bad("succeeds without having established that the position exists")
			} else if done == -1 || fail == 1 {
				j.bad("fails without having established that the position does not exist")
			} else {
				j.und("the path does not tell whether the position exists")
			}
			return
		case in < 0:
			if done == 1 {
				j.bad("reports success for a position that does not exist")
			}
			if fail == -1 {
				j.bad("reports no error for a position that does not exist")
			}
			if V != b.V0 {
				b.listDiffers(j, st, V, b.V0)
			}
			return
		}
		if done == -1 {
			j.bad("reports failure for a position that exists")
		}
		if fail == 1 {
			j.bad("reports an error for a position that exists")
		}
		want := mkSupd(b.V0, i, c.r.args[len(c.r.args)-1])
		if strings.HasPrefix(op.name, "Remove") {
			want = mkScat(mkSslice(b.V0, mkInt(0), i), mkSslice(b.V0, tAddC(i, 1), n))
		}
		if V != want && !sameSeq(st, V, want) {
			b.listDiffers(j, st, V, want)
		}
		return
	}
	if V != b.V0 {
		j.differ("the list", V, b.V0)
	}
	f, ok := fieldNamed(w.V, op.name)
	if !ok || !types.Identical(f.sig.Results(), op.sig.Results()) {
		return
	}
	p := mkElem(b.V0, i, types.NewPointer(w.V))
	H := w.derefV(p, w.V)
	exp := w.canon(resAtom(op.name, f.sig.Results().At(0).Type(), H))
	vals, errs := retErrs(op.sig, o)
	got := w.canon(vals[0])
	switch errStatus(st, errs) {
	case "none":
		if in <= 0 {
			j.bad("reads a position without having established that it exists")
			return
		}
		if got != exp && !(st.facts.isNil(got) && st.facts.isNil(exp)) {
			j.differ("the answer", got, exp)
		}
	case "some":
		if ghostHas(st, "failed") != "" || in < 0 {
			return
		}
		if in == 0 {
			j.bad("fails without having established that the position does not exist")
			return
		}
		if st.facts.isNil(p) || st.facts.isNil(exp) || w.nullValue(st, H) == 1 {
			return
		}
		j.bad("reports errors for a position that exists and can be read")
	default:
		j.und("errors %s", short(errs))
	}
}

// typedList judges an array read as a list.
func (w *World) typedList(r *Report, e *Eng, c *mapCase, o outcome) {
	b, op, item := c.r.b, c.r.op, c.r.item
	if o.kind != "ret" {
		w.abnormal(r, ruleList, item, o)
		return
	}
	st := o.st
	j := w.judge(r, ruleList, item, w.boxWhere(b, op), st)
	r.ok(ruleList, item)
	name := "Get" + strings.TrimPrefix(op.name, "GetArrayOf")
	f, ok := fieldNamed(w.V, name)
	if !ok {
		j.und("no read named %s", name)
		return
	}
	et := f.sig.Results().At(0).Type()
	_, ptr := et.Underlying().(*types.Pointer)
	size := mkLen(b.V0)
	vals, errs := retErrs(op.sig, o)
	v := vals[0]
	switch errStatus(st, errs) {
	case "some":
		if ghostHas(st, "failed") == "" {
			if ptr {
				j.bad("reports errors although every element can be read")
				return
			}
			// an element must be missing: the errors are one per null element
			es := st.seqOf(errs)
			for _, n := range sizesOf(es) {
				alts, ok := b.expandLog(st, es, size, n)
				if !ok {
					return
				}
				for _, a := range alts {
					if len(a) == 0 {
						continue
					}
					for _, g := range a {
						if !w.nullGuard(st, b, g, n) {
							j.bad("reports errors for %d elements that can be read", n)
							return
						}
					}
				}
			}
		}
		return
	case "none":
	default:
		j.und("errors %s", short(errs))
		return
	}
	if v.op == "nil" || st.facts.isNil(v) {
		if _, hi := st.facts.rng(size); hi == nil || hi.Sign() != 0 {
			j.bad("hands out nothing")
		}
		return
	}
	s := v
	if _, isP := op.sig.Results().At(0).Type().Underlying().(*types.Pointer); isP {
		s = st.load(v, nil)
	}
	s = st.seqOf(s)
	if !sized(st, s, size, j) {
		return
	}
	for _, n := range sizesOf(s) {
		alts, ok := b.expandLog(st, s, size, n)
		if !ok {
			j.und("%s", short(s))
			return
		}
		for _, a := range alts {
			if len(a) != n {
				j.bad("a list of %d elements is read as %d entries", n, len(a))
				return
			}
			for i, g := range a {
				p := mkElem(b.V0, mkInt(int64(i)), types.NewPointer(w.V))
				H := w.derefV(p, w.V)
				exp := w.canon(resAtom(name, et, H))
				got := w.canon(g.ev)
				if got == exp {
					continue
				}
				gs := st.clone()
				for _, q := range g.guards {
					gs.facts.assume(q, true)
				}
				if ptr && got.op == "nil" && (gs.facts.isNil(p) || gs.facts.isNil(exp) || w.nullValue(gs, H) == 1) {
					continue
				}
				j.differ(fmt.Sprintf("entry %d of %d", i, n), got, exp)
				return
			}
		}
	}
}

// nullGuard: the conditions of an entry say that some element is missing.
func (w *World) nullGuard(st *State, b *box, g guarded, n int) bool {
	s := st.clone()
	for _, q := range g.guards {
		s.facts.assume(q, true)
	}
	for i := 0; i < n; i++ {
		p := mkElem(b.V0, mkInt(int64(i)), types.NewPointer(w.V))
		if s.facts.isNil(p) || w.nullValue(s, w.derefV(p, w.V)) == 1 {
			return true
		}
	}
	return false
}

// counted judges length, value list and the operations that hand out the array itself.
func (w *World) counted(r *Report, e *Eng, c *mapCase, o outcome) {
	b, op, item := c.r.b, c.r.op, c.r.item
	if o.kind != "ret" || len(o.vals) == 0 {
		w.abnormal(r, ruleCount, item, o)
		return
	}
	st := o.st
	rt := op.sig.Results().At(0).Type()
	j := w.judge(r, ruleCount, item, w.boxWhere(b, op), st)
	got := o.vals[0]
	if t, ok := rt.Underlying().(*types.Basic); ok && t.Kind() == types.Int && op.name == "Len" {
		r.ok(ruleCount, item)
		if want := mkLen(b.V0); got != want && st.facts.eval(mkEq(got, want)) != 1 {
			j.differ("the length", got, want)
		}
		return
	}
	if types.Identical(rt, types.NewPointer(types.NewSlice(types.NewPointer(w.V)))) {
		r.ok(ruleCount, item)
		if got.op == "nil" {
			j.bad("hands out nothing")
			return
		}
		if s := st.seqOf(st.load(got, nil)); s != b.V0 && !sameSeq(st, s, b.V0) {
			size := mkLen(b.V0)
			w.listOf(st, b, s, size, func(i int) *Term { return mkElem(b.V0, mkInt(int64(i)), types.NewPointer(w.V)) }, func(a, b *Term) bool { return a == b }, j.bad, j.und)
		}
		return
	}
	if types.Identical(rt, w.A) && op.sig.Params().Len() == 0 {
		r.ok(ruleCount, item)
		_, errs := retErrs(op.sig, o)
		if errStatus(st, errs) == "some" {
			j.bad("reports errors")
			return
		}
		if got != b.self {
			j.differ("the array", got, b.self)
		}
	}
}

func init() {
	define(&propDef{id: "C09", run: func(w *World, r *Report) {
		e := w.engine()
		w.arrayRuns(r, e, ruleCount, func(c *mapCase) {
			op := c.r.op
			for _, o := range c.r.outs {
				switch {
				case isAppend(op):
					w.appended(r, e, c, o)
				case indexed(op):
					w.positional(r, e, c, o)
				case strings.HasPrefix(op.name, "GetArrayOf"):
					w.typedList(r, e, c, o)
				case op.sig.Params().Len() == 0 && op.sig.Results().Len() > 0:
					w.counted(r, e, c, o)
				}
			}
		})
		w.started(r)
	}})
}

// sized: the sequence has as many entries as the box, whatever the number; judged symbolically, so that a walk
// that ends early is seen at any number of entries.
func sized(st *State, s, size *Term, j judge) bool {
	l := mkLen(s)
	switch st.facts.eval(mkEq(l, size)) {
	case 1:
		return true
	case -1:
		if understood(s) {
			j.bad("gives %s entries for %s", short(l), short(size))
		} else {
			j.und("%s", short(s))
		}
		return false
	}
	lo, _ := st.facts.rng(size)
	if lo != nil && lo.Cmp(big.NewInt(3)) > 0 {
		j.und("the number of entries: %s", short(l))
		return false
	}
	return true
}

// started judges an array made of given values, all of one kind, each with its own unknown content.
func (w *World) started(r *Report) {
	fn := w.fn("NewArrayOfValues")
	if fn == nil || fn.Signature.Params().Len() != 1 {
		return
	}
	pt, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	get, ok1 := fieldNamed(w.A, "GetValues")
	obj, ok2 := fieldNamed(w.V, "GetObject")
	if !ok1 || !ok2 {
		return
	}
	for _, c := range w.contents() {
		e := w.engine()
		item := "NewArrayOfValues of " + c.name
		st := newState()
		v, _ := c.make(st)
		cs := mkSym("cs", types.NewSlice(pt.Elem()))
		N := mkLen(mkSym("given", types.NewSlice(pt.Elem())))
		at := func(t, i *Term) *Term {
			if c.typ == nil {
				return t
			}
			return subst(t, mkSym("c", c.typ), mkElem(cs, i, c.typ))
		}
		old := st.facts
		st.facts = newFacts()
		univ := func(q *Term, val bool) {
			s := "+"
			if !val {
				s = "-"
			}
			st.facts.univ[mk("univ", s, nil, nil, nil, nil, mkInt(0), N, at(q, kappa))] = true
		}
		for q, val := range old.truth {
			univ(q, val)
		}
		for q := range old.bounds {
			univ(tLess(mkInt(0), q), true)
		}
		seq := mkSmap(mkInt(0), N, []smapCase{{piece: mkSeq(at(v, kappa))}})
		back := mkObj("given!", pt.Elem())
		st.heap[back] = seq
		cell := st.alloc("given", pt.Elem(), mk("slice", "?", nil, nil, nil, nil, back, mkInt(0), N))
		r.ok(ruleStart, item)
		for _, o := range e.callFn(st, "root", fn, []*Term{cell}, nil, nil) {
			if o.kind != "ret" {
				w.abnormal(r, ruleStart, item, o)
				continue
			}
			self := o.st.load(o.vals[0], w.A)
			for _, g := range e.callTerm(o.st, "look", mkSel(self, get.k, get.sig), get.sig, nil, nil) {
				if g.kind != "ret" {
					w.abnormal(r, ruleStart, item, g)
					continue
				}
				j := w.judge(r, ruleStart, item, w.where(fn.Pos(), fn), g.st)
				if g.vals[0].op == "nil" {
					j.bad("there is no value list")
					continue
				}
				V := g.st.seqOf(g.st.load(g.vals[0], nil))
				if !sized(g.st, V, N, j) {
					continue
				}
				var b *box
				for _, n := range sizesOf(V) {
					alts, ok := b.expandLog(g.st, V, N, n)
					if !ok {
						j.und("%s", short(V))
						break
					}
					for _, a := range alts {
						if len(a) != n {
							j.bad("%d values give %d elements", n, len(a))
							break
						}
						for i, x := range a {
							s := g.st.clone()
							for _, q := range x.guards {
								s.facts.assume(q, true)
							}
							for q, val := range old.truth {
								s.facts.assume(at(q, mkInt(int64(i))), val)
							}
							w.startEntry(e, r, s, x.ev, at(v, mkInt(int64(i))), c, obj, j, item)
						}
					}
				}
			}
		}
	}
}

func (w *World) startEntry(e *Eng, r *Report, s *State, p, v *Term, c *Content, obj field, j judge, item string) {
	if c.typ != nil && types.Identical(c.typ, types.NewPointer(w.V)) {
		if p == v.args[0] {
			return
		}
		if !c.null() {
			j.differ("an element", p, v.args[0])
			return
		}
	}
	if p.op == "nil" {
		j.bad("an element is nil")
		return
	}
	h := s.load(p, w.V)
	if c.typ != nil && types.Identical(c.typ, w.V) {
		if h != v.args[0] {
			j.differ("an element", h, v.args[0])
		}
		return
	}
	if isOpaqueStruct(h) {
		j.und("%s", short(p))
		return
	}
	for _, g := range e.callTerm(s, "look", mkSel(h, obj.k, obj.sig), obj.sig, nil, nil) {
		if g.kind != "ret" {
			w.abnormal(r, ruleStart, item, g)
			continue
		}
		w.sameObject(e, g.st, g.vals[0], v, c, j.bad, j.und)
	}
}
