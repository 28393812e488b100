package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Rules of the value job applied to the operations of documents and arrays.

func returnsErrors(op field) bool {
	n := op.sig.Results().Len()
	return n > 0 && isErrs(op.sig.Results().At(n-1).Type())
}

// boxRuns runs f for the selected operations of documents and of arrays.
func (w *World) boxRuns(rep *Report, rule string, keep func(op field) bool, f func(e *Eng, r *boxRun)) {
	for _, mk := range []struct {
		ctor string
		n    *types.Named
	}{{"NewMap", w.M}, {"NewArray", w.A}} {
		e := w.engine()
		w.freshContainers(e)
		b, why := w.newBox(e, mk.ctor, mk.n)
		if b == nil {
			rep.add(rule, mk.n.Obj().Name(), "undecided", why, "")
			continue
		}
		n := 0
		for _, op := range fieldsOf(mk.n) {
			if keep(op) {
				n++
				f(e, w.runBox(e, b, op, nil, ""))
			}
		}
		rep.count("operations of "+mk.n.Obj().Name(), n)
	}
}

func init() {
	also("C03", func(w *World, r *Report) {
		w.boxRuns(r, "errors come without a value, and never as an empty list", returnsErrors, func(e *Eng, x *boxRun) {
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.xorRule(r, x.item, x.op.sig, o, w.boxWhere(x.b, x.op))
				} else if o.kind == "undecided" {
					w.abnormal(r, "errors come without a value, and never as an empty list", x.item, o)
				}
			}
		})
	})
	also("C04", func(w *World, r *Report) {
		w.boxRuns(r, "a failed step is reported", returnsErrors, func(e *Eng, x *boxRun) {
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.swallowed(r, x.item, x.op.sig, o, w.boxWhere(x.b, x.op))
				} else if o.kind == "undecided" {
					w.abnormal(r, "a failed step is reported", x.item, o)
				}
			}
		})
	})
	also("C06", func(w *World, r *Report) {
		w.boxRuns(r, "reads return normally", func(op field) bool { return isReadName(op.name) }, func(e *Eng, x *boxRun) {
			r.ok("reads return normally", x.item)
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, "reads return normally", x.item, o)
				}
			}
		})
	})
	also("C23", func(w *World, r *Report) {
		w.boxRuns(r, "reading leaves everything as it was", func(op field) bool { return isReadName(op.name) }, func(e *Eng, x *boxRun) {
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.pure(r, x.item, x.pre, x.args, o, w.boxWhere(x.b, x.op))
				}
			}
		})
	})
	also("C10", func(w *World, r *Report) {
		w.boxRuns(r, "a clone holds the same entries", func(op field) bool { return op.name == "Clone" }, func(e *Eng, x *boxRun) {
			w.cloneBox(r, e, x)
		})
	})
}

// also adds a part to a property.
func also(id string, f func(w *World, r *Report)) {
	later = append(later, func() {
		d := props[id]
		if d == nil {
			d = &propDef{id: id, run: func(w *World, r *Report) {}}
			define(d)
		}
		old := d.run
		d.run = func(w *World, r *Report) {
			old(w, r)
			f(w, r)
		}
	})
}

var later []func()

// ---- C10 ----

// cloneBox judges the clone of a document or an array: one entry per entry, in order, each a clone of the entry.
func (w *World) cloneBox(r *Report, e *Eng, x *boxRun) {
	const rule, fresh = "a clone holds the same entries", "a clone shares nothing with its original"
	b := x.b
	where := w.boxWhere(b, x.op)
	for _, o := range x.outs {
		if o.kind != "ret" {
			w.abnormal(r, rule, x.item, o)
			continue
		}
		st := o.st
		bad := func(f string, a ...interface{}) {
			s := "violation"
			if !sure(st) {
				s = "undecided"
			}
			r.add(rule, x.item, s, x.item+": "+fmt.Sprintf(f, a...), where)
			if s == "violation" {
				dumpFacts(st)
			}
		}
		und := func(f string, a ...interface{}) {
			r.add(rule, x.item, "undecided", fmt.Sprintf(f, a...), where)
		}
		vals, errs := retErrs(x.op.sig, o)
		r.ok(rule, x.item)
		switch errStatus(st, errs) {
		case "some":
			if ghostHas(st, "failed") == "" {
				bad("reports errors although every entry can be cloned")
			}
			continue
		case "none":
		default:
			und("errors %s", short(errs))
			continue
		}
		log, ok := logOf(st, vals[0])
		if !ok {
			if vals[0] == b.ptr {
				r.add(fresh, x.item, "violation", x.item+" returns the original", where)
			} else if st.facts.isNil(vals[0]) {
				bad("returns nothing")
			} else {
				und("%s", short(vals[0]))
			}
			continue
		}
		size := mkLen(b.V0)
		if b.n == w.M {
			size = mkLen(b.K0)
		}
		if !sized(st, log, size, judge{bad: bad, und: und}) {
			continue
		}
		for _, n := range sizesOf(log) {
			alts, ok := b.expandLog(st, log, size, n)
			if !ok {
				und("%s", short(log))
				break
			}
			for _, a := range alts {
				if len(a) != n {
					bad("the clone of %d entries has %d", n, len(a))
					break
				}
				for i, ev := range a {
					w.cloneEntry(st, b, ev, i, bad, und)
				}
			}
		}
	}
}

type guarded struct {
	ev     *Term
	guards []*Term // over the index
	kidx   *Term
}

// expandLog writes a log out for n entries, keeping the conditions of each entry.
func (b *box) expandLog(st *State, s, size *Term, n int) ([][]guarded, bool) {
	sub := func(t *Term) *Term { return substMap(t, map[*Term]*Term{size: mkInt(int64(n))}, map[*Term]*Term{}) }
	if !b.instance(st, nil, size, n) {
		return nil, true
	}
	var rec func(s *Term) ([][]guarded, bool)
	rec = func(s *Term) ([][]guarded, bool) {
		switch s.op {
		case "seq":
			var r []guarded
			for _, a := range s.args {
				r = append(r, guarded{ev: sub(a)})
			}
			return [][]guarded{r}, true
		case "scat":
			acc := [][]guarded{nil}
			for _, p := range s.args {
				a, ok := rec(p)
				if !ok {
					return nil, false
				}
				acc = cross(acc, a)
				if len(acc) > 5000 {
					return nil, false
				}
			}
			return acc, true
		case "smap":
			lo, ok1 := sub(s.args[0]).smallInt()
			hi, ok2 := sub(s.args[1]).smallInt()
			if !ok1 || !ok2 || hi-lo > 2100 {
				return nil, false
			}
			acc := [][]guarded{nil}
			for i := lo; i < hi; i++ {
				var step [][]guarded
				for _, c := range smapCases(s) {
					can := true
					f := newFacts()
					var gs []*Term
					for _, q := range c.guards {
						g := subst(q, kappa, mkInt(i))
						if !f.assume(sub(g), true) {
							can = false
							break
						}
						gs = append(gs, g)
					}
					if !can {
						continue
					}
					a, ok := rec(subst(c.piece, kappa, mkInt(i)))
					if !ok {
						return nil, false
					}
					for _, x := range a {
						var y []guarded
						for _, g := range x {
							y = append(y, guarded{ev: g.ev, guards: append(append([]*Term{}, gs...), g.guards...)})
						}
						step = append(step, y)
					}
				}
				acc = cross(acc, step)
				if len(acc) > 5000 {
					return nil, false
				}
			}
			return acc, true
		}
		return nil, false
	}
	return rec(s)
}

func cross(a, b [][]guarded) [][]guarded {
	var r [][]guarded
	for _, x := range a {
		for _, y := range b {
			r = append(r, append(append([]guarded{}, x...), y...))
		}
	}
	return r
}

// cloneEntry judges what was put into the clone for entry i.
func (w *World) cloneEntry(st *State, b *box, g guarded, i int, bad, und func(f string, a ...interface{})) {
	ev := g.ev
	if ev.op != "fn" || !strings.HasPrefix(ev.s, "ev:") {
		und("%s", short(ev))
		return
	}
	name := ev.s[3:]
	args := ev.args
	var p *Term // the original entry
	if b.n == w.M {
		key := mkElem(b.K0, mkInt(int64(i)), tString)
		if len(args) == 0 || args[0] != key {
			if len(args) > 0 && understood(args[0]) {
				bad("entry %d of the clone has key %s", i, short(args[0]))
			} else {
				und("%s", short(ev))
			}
			return
		}
		args = args[1:]
		p = w.valuePtr(b, key)
		name = strings.TrimPrefix(name, "Set")
	} else {
		p = mkElem(b.V0, mkInt(int64(i)), types.NewPointer(w.V))
		name = strings.TrimPrefix(name, "Append")
	}
	s := st.clone()
	for _, q := range g.guards {
		s.facts.assume(q, true)
	}
	H := w.derefV(p, w.V)
	pnil := s.facts.isNil(p) || w.nullValue(s, H) == 1
	if b.n == w.M && s.facts.eval(mk("mhas", "", tBool, nil, nil, nil, b.m0, mkElem(b.K0, mkInt(int64(i)), tString))) == -1 {
		return
	}
	content := func(t *Term) *Term {
		if t.op == "addr" || t.op == "obj" {
			return s.load(t, nil)
		}
		return t
	}
	switch name {
	case "Nil":
		if !pnil {
			bad("entry %d is cloned as null although the original need not be", i)
		}
		return
	case "Value", "ValueValue":
		if len(args) != 1 {
			break
		}
		if args[0].op == "nil" {
			if !s.facts.isNil(p) {
				bad("entry %d is cloned as nil", i)
			}
			return
		}
		c := content(args[0])
		if c == mkFn("cloneof", c.typ, H) {
			return
		}
		if c == H || args[0] == p {
			if s.facts.isNil(p) {
				return
			}
			bad("entry %d of the clone is the original's own value", i)
			return
		}
		if understood(c) && c.op == "fn" && c.s == "cloneof" {
			bad("entry %d of the clone is a clone of %s", i, short(c.args[0]))
			return
		}
		und("%s", short(c))
		return
	case "Map", "MapValue", "Array", "ArrayValue":
		if len(args) != 1 {
			break
		}
		base := strings.TrimSuffix(name, "Value")
		c := content(args[0])
		f, ok := fieldNamed(w.V, "Get"+base)
		if !ok {
			break
		}
		in := resAtom("Get"+base, f.sig.Results().At(0).Type(), H)
		if args[0] == in || c == w.canon(w.derefV(in, w.M)) || c.op == "deref" && c.args[0] == in {
			bad("entry %d of the clone is the original's own %s", i, strings.ToLower(base))
			return
		}
		if c.op == "fn" && c.s == "cloneof" {
			src := w.canon(c.args[0])
			want := w.canon(w.derefV(in, w.handleTypeNamed(base)))
			if src != want {
				bad("entry %d of the clone is a clone of %s", i, short(src))
				return
			}
			if s.facts.eval(mkFn("is:Is"+base, tBool, H)) == 1 || s.facts.nonNil(in) {
				return
			}
			und("entry %d is cloned as a %s", i, strings.ToLower(base))
			return
		}
		und("%s", short(c))
		return
	}
	und("%s", short(ev))
}

func (w *World) handleTypeNamed(n string) *types.Named {
	switch n {
	case "Map":
		return w.M
	case "Array":
		return w.A
	}
	return w.V
}
