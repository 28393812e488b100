package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// The value job: every operation of Value, and the conversion functions, on every kind of content.

// target is a constructed value holding one kind of content.
type target struct {
	c    *Content
	st   *State // after construction
	v    *Term  // the interface value given to the constructor
	x    *Term  // what it holds
	ptr  *Term  // pointer to the Value
	self *Term  // the Value structure
}

type opRun struct {
	t    *target
	op   field
	name string
	args []*Term
	pre  *State
	outs []outcome
}

func (w *World) construct(e *Eng, c *Content) ([]*target, []outcome) {
	fn := w.fn("NewValue")
	if fn == nil {
		return nil, []outcome{{kind: "undecided", msg: "NewValue not found"}}
	}
	st := newState()
	v, x := c.make(st)
	var ts []*target
	var bad []outcome
	for _, o := range e.callFn(st, "root", fn, []*Term{v}, nil, nil) {
		if o.kind != "ret" {
			bad = append(bad, o)
			continue
		}
		ts = append(ts, &target{c: c, st: o.st, v: v, x: x, ptr: o.vals[0], self: o.st.load(o.vals[0], w.V)})
	}
	return ts, bad
}

// argFor makes an unknown argument of a type.
func (w *World) argFor(st *State, name string, t types.Type) *Term {
	if isBuilderT(t) {
		s := mkSym(name, t)
		st.facts.assume(mkEq(s, tNil), false)
		return s
	}
	return mkSym(name, t)
}

// runOp runs one operation of a constructed value.
func (w *World) runOp(e *Eng, t *target, op field) *opRun {
	st := t.st.clone()
	r := &opRun{t: t, op: op, name: op.name, pre: t.st}
	for i := 0; i < op.sig.Params().Len(); i++ {
		r.args = append(r.args, w.argFor(st, fmt.Sprintf("arg%d", i), op.sig.Params().At(i).Type()))
	}
	callee := mkSel(t.self, op.k, op.sig)
	e.steps = 0
	r.outs = e.callTerm(st, "op."+op.name, callee, op.sig, r.args, nil)
	return r
}

func (r *opRun) item() string { return "Value." + r.name + " on " + r.t.c.name }

// valueRuns runs f for every selected operation on every content.
func (w *World) valueRuns(rep *Report, e *Eng, keep func(c *Content, op field) bool, f func(r *opRun)) {
	ops := fieldsOf(w.V)
	n := 0
	for _, c := range w.contents() {
		any := false
		for _, op := range ops {
			if keep(c, op) {
				any = true
			}
		}
		if !any {
			continue
		}
		ts, bad := w.construct(e, c)
		for _, o := range bad {
			w.abnormal(rep, "construction", "NewValue of "+c.name, o)
		}
		for _, t := range ts {
			for _, op := range ops {
				if !keep(c, op) {
					continue
				}
				n++
				f(w.runOp(e, t, op))
			}
		}
	}
	rep.count("value operations × contents", n)
}

// abnormal records an outcome that is not a normal return.
func (w *World) abnormal(rep *Report, rule, item string, o outcome) {
	switch o.kind {
	case "panic":
		if sure(o.st) {
			rep.add(rule, item, "violation", item+" can panic: "+o.msg, w.where(o.pos, o.fn))
			dumpFacts(o.st)
		} else {
			rep.add(rule, item, "undecided", o.msg+" at "+w.where(o.pos, o.fn), "")
		}
	default:
		rep.add(rule, item, "undecided", o.msg+" at "+w.where(o.pos, o.fn), "")
	}
}

// weakHit counts the answers that were withheld because a path looks at a number or text that was given up.
var weakHit int

// sure: nothing the path depends on was given up by the analysis.
func sure(st *State) bool {
	if st == nil {
		return true
	}
	if ghostHas(st, "beyond") != "" {
		return false
	}
	if st.ghosts[weakGhost] != nil {
		weakHit++
		return false
	}
	for t := range st.facts.truth {
		if !knownTerm(t, true) {
			if os.Getenv("UNSURE") != "" {
				println("unsure:", t.String())
			}
			return false
		}
	}
	return true
}

func understood(t *Term) bool { return knownTerm(t, false) }

// knownTerm: no part of the term was given up. Conditions may count the errors a loop collected.
func knownTerm(t *Term, counts bool) bool {
	ok := true
	walk(t, func(x *Term) bool {
		if counts && x.op == "len" && isErrSlice(x.args[0].typ) {
			return false
		}
		if x.op == "elem" && x.args[0].op == "seq" {
			ok = false // an entry of a table at a position that is not known
		}
		if x.op == "fn" && (x.s == "lost" || x.s == "unknown" || x.s == "anyseq") || x.op == "sym" && (strings.HasPrefix(x.s, "undef:") || givenUp(x.s)) {
			ok = false
		}
		return ok
	})
	return ok
}

// givenUp: the symbol stands for whatever a loop left in a variable or cell (its number of rounds is not such).
func givenUp(s string) bool {
	if !strings.HasPrefix(s, "L") && !strings.HasPrefix(s, "XL") {
		return false
	}
	i := strings.IndexByte(s, ':')
	return i > 0 && s[i+1:] != "n" && s[i+1:] != ""
}

// functions that take any value: conversions and serialisation.
type funcRun struct {
	fn   string
	c    *Content
	form string // plain, Value, *Value
	v, x *Term
	args []*Term
	pre  *State
	outs []outcome
	b    *Term // builder
}

func (r *funcRun) item() string {
	if r.form == "plain" {
		return r.fn + " of " + r.c.name
	}
	return r.fn + " of " + r.form + " holding " + r.c.name
}

// converters: exported functions taking one interface value (and perhaps a builder) and reporting errors.
func (w *World) converters() []string {
	var r []string
	sc := w.json.Pkg.Scope()
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		ni, other := 0, 0
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if i2, ok := t.Underlying().(*types.Interface); ok && i2.Empty() {
				ni++
			} else if !isBuilderT(t) {
				other++
			}
		}
		if ni == 1 && other == 0 && sig.Results().Len() > 0 && isErrs(sig.Results().At(sig.Results().Len()-1).Type()) {
			r = append(r, n)
		}
	}
	return r
}

func (w *World) convertRuns(rep *Report, e *Eng, names []string, f func(r *funcRun)) {
	n := 0
	for _, c := range w.contents() {
		for _, name := range names {
			fn := w.fn(name)
			run := func(form string, st *State, v, cv, x *Term) {
				r := &funcRun{fn: name, c: c, form: form, v: cv, x: x, pre: st.clone()}
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					t := fn.Signature.Params().At(i).Type()
					if isBuilderT(t) {
						r.b = w.argFor(st, "builder", t)
						r.args = append(r.args, r.b)
					} else {
						r.args = append(r.args, v)
					}
				}
				if r.b != nil {
					r.pre.facts.assume(mkEq(r.b, tNil), false)
				}
				e.steps = 0
				r.outs = e.callFn(st, "root", fn, r.args, nil, nil)
				n++
				f(r)
			}
			st := newState()
			v, x := c.make(st)
			run("plain", st, v, v, x)
			ts, _ := w.construct(e, c)
			for _, t := range ts {
				run("*json.Value", t.st.clone(), mkIface(types.NewPointer(w.V), t.ptr), v, x)
				run("json.Value", t.st.clone(), mkIface(w.V, t.self), v, x)
			}
		}
	}
	rep.count("conversion function × contents", n)
}

// written is the text an outcome appended to the builder.
func written(st *State, b *Term) *Term {
	c := st.content(b)
	if c.op == "deref" || c == mkFn("before", nil, b) {
		return mkStr("")
	}
	if c.op == "scat" && c.args[0] == mkFn("before", nil, b) {
		return textOfSeq(mkScat(c.args[1:]...))
	}
	return nil
}

func isOpaqueStruct(t *Term) bool { return t.op != "struct" }

var _ = big.NewInt
