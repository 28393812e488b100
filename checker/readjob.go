package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Reads of text, flags, decimals, lists, objects and arrays. Integer reads have their own property.

const (
	ruleExactRead  = "a successful read returns the stored content"
	ruleRefuseRead = "content that can be read is not refused"
	ruleForeign    = "content of another kind is reported as an error"
	ruleMissing    = "null reads as missing"
)

// wantRead is what a read of content c must deliver: the condition under which it
// succeeds and the value then. A nil value is not compared.
func (w *World) wantRead(st *State, c *Content, x *Term, rd readSpec) (accept, want *Term, ok bool) {
	same := func() (*Term, *Term, bool) { return tTrue, x, true }
	switch rd.kind {
	case "string", "map", "array":
		return same()
	case "func":
		// only functions of the one type the read hands out
		res := x.typ
		if res == nil || c.ptr {
			if p, ok := c.typ.Underlying().(*types.Pointer); ok {
				res = p.Elem()
			}
		}
		if res == nil || !types.Identical(res, rd.typ) {
			return nil, nil, false
		}
		return same()
	case "bool":
		if c.kind == "bool" {
			return same()
		}
		is := func(s string) *Term { return mkEq(x, mkStr(s)) }
		yes := mkOr(is("1"), is("true"))
		return mkOr(yes, mkOr(is("0"), is("false"))), yes, true
	case "time":
		if c.kind == "time" {
			return same()
		}
	case "float":
		switch c.kind {
		case "float":
			if c.bits == 64 {
				return same()
			}
			return tTrue, mkFn("tofloat64", types.Typ[types.Float64], x), true
		case "int", "uint":
			return tTrue, mkFn("tofloat64", types.Typ[types.Float64], x), true
		case "string":
			b := mkInt(64)
			return mkFn("parsefloat.ok", tBool, x, b), mkFn("parsefloat", types.Typ[types.Float64], x, b), true
		}
	}
	return nil, nil, false
}

// exactList: a list read from the content has one entry for each of its entries, in order.
func (w *World) exactList(r *Report, e *Eng, x *opRun, rd readSpec, o outcome, got *Term, status string, judge func(o outcome, rule, f string, a ...interface{})) {
	c, st, item := x.t.c, o.st, x.item()
	where := w.opPos(x.t, x.op)
	if status == "some" {
		r.ok(ruleRefuseRead, item)
		// entries of an array may be ones that cannot be read as text
		if c.kind != "array" {
			judge(o, ruleRefuseRead, "content is refused")
		}
		return
	}
	if status != "none" {
		return
	}
	r.ok(ruleExactRead, item)
	if rd.kind == "runes" {
		l := st.load(got, x.op.sig.Results().At(0).Type().(*types.Pointer).Elem())
		if st.facts.isNil(got) {
			judge(o, ruleExactRead, "present text reads as missing")
			return
		}
		q := st.seqOf(l)
		if q.op == "smap" {
			for _, k := range smapCases(q) {
				if k.piece.op == "seq" && len(k.piece.args) != 1 {
					judge(o, ruleExactRead, "a character is listed %d times when %v", len(k.piece.args), k.guards)
				}
			}
		} else if !(q.op == "seq" && len(q.args) == 0) {
			r.add(ruleExactRead, item, "undecided", short(q), where)
		}
		return
	}
	if c.kind == "errors" {
		if got != x.t.x && st.seqOf(got) != st.seqOf(x.t.x) {
			if q := st.seqOf(got); q.op == "seq" && st.facts.eval(mkEq0(mkLen(st.seqOf(x.t.x)))) == 0 {
				judge(o, ruleExactRead, "the read returns %s", short(q))
			} else {
				r.add(ruleExactRead, item, "undecided", short(got), where)
			}
		}
		return
	}
	src := x.t.x
	elemT := types.Type(tString)
	text := func(el *Term) *Term { return el }
	if c.kind == "array" {
		// the values of the array, read as text one by one
		src = mkFn("res:GetValues", nil, x.t.x)
		text = nil
	}
	if text != nil && !st.facts.isNil(got) && got.op != "slice" {
		r.add(ruleExactRead, item, "undecided", short(got), where)
		return
	}
	var q, os *Term
	q = st.seqOf(got)
	if text != nil {
		os = st.seqOf(src)
	} else {
		// found in the result itself
		walk(q, func(t *Term) bool {
			if t.op == "elem" && os == nil && strings.Contains(t.args[0].String(), "GetValues") {
				os = t.args[0]
			}
			return true
		})
		if os == nil {
			if !st.facts.isNil(got) {
				r.add(ruleExactRead, item, "undecided", short(q), where)
			}
			return
		}
	}
	if q.op == "seq" && len(q.args) == 0 {
		if st.facts.eval(mkEq0(mkLen(os))) != 1 {
			if st.facts.eval(mkEq0(mkLen(os))) == -1 {
				judge(o, ruleExactRead, "the list is read as an empty one")
			} else {
				r.add(ruleExactRead, item, "undecided", "an empty list for "+short(os), where)
			}
		}
		return
	}
	if q.op != "smap" {
		if q.op == "seq" && st.facts.eval(mkEq0(tAddC(mkLen(os), -int64(len(q.args))))) == -1 {
			judge(o, ruleExactRead, "the list has %d entries for %s", len(q.args), short(mkLen(os)))
			return
		}
		r.add(ruleExactRead, item, "undecided", short(q), where)
		return
	}
	if q.args[0] != mkInt(0) || st.facts.eval(mkEq0(tSub(q.args[1], mkLen(os)))) != 1 {
		if st.facts.eval(mkEq0(tSub(q.args[1], mkLen(os)))) == -1 {
			judge(o, ruleExactRead, "the list covers %s entries of %s", short(q.args[1]), short(mkLen(os)))
		} else {
			r.add(ruleExactRead, item, "undecided", "covers "+short(q.args[1]), where)
		}
		return
	}
	for _, k := range smapCases(q) {
		if k.piece.op != "seq" {
			r.add(ruleExactRead, item, "undecided", short(k.piece), where)
			return
		}
		if len(k.piece.args) != 1 {
			judge(o, ruleExactRead, "an entry is listed %d times when %v", len(k.piece.args), k.guards)
			return
		}
		p := k.piece.args[0]
		if st.facts.isNil(p) {
			judge(o, ruleExactRead, "an entry is listed as nil")
			return
		}
		t := e.errText(st, p)
		el := mkElem(os, kappa, elemT)
		if text == nil {
			if !(t.op == "fn" && t.s == "strof" && strings.HasSuffix(t.String(), "(elem("+os.String()+", κ)))")) {
				r.add(ruleExactRead, item, "undecided", short(t), where)
			}
			continue
		}
		if t == el {
			continue
		}
		f := st.clone()
		for _, g := range k.guards {
			f.facts.assume(g, true)
		}
		if t.op == "str" || t.op == "elem" && t.args[0] == os {
			judge(o, ruleExactRead, "entry %s reads %s", short(el), short(t))
		} else if ex, ok := refute(f, t, el); ok {
			judge(o, ruleExactRead, "an entry reads %s", ex)
		} else {
			r.add(ruleExactRead, item, "undecided", short(t)+" against "+short(el), where)
		}
	}
}

// printsAsNil: the path takes a pointer that is not nil to print as a nil one.
func printsAsNil(st *State) bool {
	for t, v := range st.facts.truth {
		if !v || t.op != "eq" {
			continue
		}
		a, b := t.args[0], t.args[1]
		if a.op == "str" {
			a, b = b, a
		}
		if b.op != "str" || !strings.HasSuffix(b.s, "=<nil>)") || a.op != "fn" || !strings.HasPrefix(a.s, "sprint%") || len(a.args) != 1 {
			continue
		}
		if p := a.args[0]; p.op == "iface" && pointerLike(p.typ) && st.facts.nonNil(p.args[0]) {
			return true
		}
	}
	for t, k := range st.facts.sconst {
		if t.op == "fn" && strings.HasPrefix(t.s, "sprint%") && len(t.args) == 1 && strings.HasSuffix(k, "=<nil>)") {
			if p := t.args[0]; p.op == "iface" && pointerLike(p.typ) && st.facts.nonNil(p.args[0]) {
				return true
			}
		}
	}
	return false
}

func (w *World) exactRead(r *Report, e *Eng, x *opRun, rd readSpec) {
	c := x.t.c
	item := x.item()
	where := w.opPos(x.t, x.op)
	sig := x.op.sig
	listForm := rd.kind == "errors"
	judge := func(o outcome, rule, f string, a ...interface{}) {
		s := "violation"
		if !sure(o.st) {
			s = "undecided"
		}
		r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
		if s == "violation" {
			dumpFacts(o.st)
		}
	}
	for _, o := range x.outs {
		if o.kind != "ret" {
			w.abnormal(r, ruleExactRead, item, o)
			continue
		}
		if printsAsNil(o.st) {
			continue
		}
		vals, errs := retErrs(sig, o)
		status := errStatus(o.st, errs)
		t0 := sig.Results().At(0).Type()
		switch {
		case c.null():
			r.ok(ruleMissing, item)
			empty, known := w.emptyValue(o.st, vals[0], t0)
			switch {
			case rd.value && !listForm && status == "none":
				judge(o, ruleMissing, "a missing value is read as %s without an error", short(vals[0]))
			case (!rd.value || listForm) && status == "none" && known && !empty:
				judge(o, ruleMissing, "a missing value is read as %s", short(vals[0]))
			case (!rd.value || listForm) && status == "some":
				judge(o, ruleMissing, "reading a missing value is refused")
			}
			continue
		case !kindIn(accepts[rd.kind], c.kind):
			r.ok(ruleForeign, item)
			if status == "none" {
				judge(o, ruleForeign, "%s content is read as %s without an error", c.kind, short(vals[0]))
			}
			continue
		}
		if rd.kind == "errors" || rd.kind == "runes" {
			w.exactList(r, e, x, rd, o, vals[0], status, judge)
			continue
		}
		accept, want, ok := w.wantRead(o.st, c, x.t.x, rd)
		if !ok {
			continue
		}
		switch status {
		case "none":
			r.ok(ruleExactRead, item)
			if o.st.facts.eval(accept) != 1 {
				f := o.st.clone()
				if f.facts.assume(accept, false) && !f.facts.undecidedAbout(x.t.x) {
					judge(o, ruleExactRead, "content is accepted although %s does not hold", short(accept))
					continue
				} else if ex, ok := refute(o.st, tTrue, accept); ok {
					judge(o, ruleExactRead, "content is accepted that should not be: %s", ex)
					continue
				} else if f.facts.eval(accept) != 1 {
					r.add(ruleExactRead, item, "undecided", "accepted: "+short(accept), where)
				}
			}
			nn, got := resultOf(o.st, vals[0], t0)
			if nn < 0 {
				judge(o, ruleExactRead, "present content reads as missing")
				continue
			}
			if rd.kind == "float" && rd.bits == 32 {
				// the way through text with six decimals loses the rest (see the write-read property):
				// told apart by instances that have no such rest
				if ex, ok := refute(o.st, got, mkFn("tofloat32", types.Typ[types.Float32], want)); ok {
					judge(o, ruleExactRead, "the read returns %s", ex)
				}
				continue
			}
			if got == want || want == x.t.x && vals[0] == x.t.x {
				continue
			}
			switch truthOf(o.st, got, want) {
			case "ok":
			default:
				if ex, ok := refute(o.st, got, want); ok {
					judge(o, ruleExactRead, "the read returns %s", ex)
				} else if got.op == "nil" || got.op == "float" || got.op == "str" {
					judge(o, ruleExactRead, "the read returns %s for %s", short(got), short(want))
				} else {
					r.add(ruleExactRead, item, "undecided", short(got)+" against "+short(want), where)
				}
			}
		case "some":
			r.ok(ruleRefuseRead, item)
			if rd.kind == "float" && rd.bits == 32 {
				continue // out of range
			}
			f := o.st.clone()
			if !f.facts.assume(accept, true) {
				continue
			}
			if f.facts.undecidedAbout(x.t.x) && accept != tTrue {
				if ex, ok := refute(o.st, tFalse, accept); ok {
					judge(o, ruleRefuseRead, "content is refused that should not be: %s", ex)
					continue
				}
				r.add(ruleRefuseRead, item, "undecided", "refused: "+short(accept), where)
				continue
			}
			judge(o, ruleRefuseRead, "content is refused although %s holds", short(accept))
		}
	}
}

func init() {
	define(&propDef{id: "C28", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, func(c *Content, op field) bool {
			rd, ok := w.readOf(op)
			return ok && !c.word && rd.kind != "int" && rd.kind != "uint" && !strings.Contains(op.name, "DecimalPlaces")
		}, func(x *opRun) {
			rd, _ := w.readOf(x.op)
			w.exactRead(r, e, x, rd)
		})
	}})
}
