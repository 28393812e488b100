package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// ---- helpers over outcomes ----

// retErrs splits a return into its values and its error list (nil when the operation reports none).
func retErrs(sig *types.Signature, o outcome) (vals []*Term, errs *Term) {
	n := sig.Results().Len()
	if n > 0 && isErrs(sig.Results().At(n-1).Type()) && len(o.vals) == n {
		return o.vals[:n-1], o.vals[n-1]
	}
	return o.vals, nil
}

// emptyValue: what may accompany errors: nil, zero, or an empty container.
func (w *World) emptyValue(st *State, v *Term, t types.Type) (bool, bool) {
	if w.handleType(t) != nil {
		// a container made here, or the zero structure, never the content
		if v.op == "fn" && v.s == freshOp {
			return isFreshEmpty(st, v), true
		}
		return v.op == "struct", true
	}
	if v == zeroOf(t) || v.op == "fn" && v.s == "zerotime" {
		return true, true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		if st.facts.isNil(v) {
			return true, true
		}
		if st.facts.nonNil(v) {
			return false, true
		}
		return false, understood(v)
	case *types.Slice:
		if st.facts.isNil(v) {
			return true, true
		}
		lo, hi := st.facts.rng(mkLen(v))
		if hi != nil && hi.Sign() == 0 {
			return true, true
		}
		return false, lo != nil && lo.Sign() > 0
	case *types.Basic:
		if isIntType(t) {
			return st.facts.eval(mkEq0(v)) == 1, understood(v)
		}
		if v.op == "str" || v.op == "float" || v == tTrue || v == tFalse {
			return v == zeroOf(t), true
		}
		return st.facts.eval(mkEq(v, zeroOf(t))) == 1, understood(v)
	}
	return v == zeroOf(t), understood(v)
}

// xorRule applies C03 to one outcome.
func (w *World) xorRule(rep *Report, item string, sig *types.Signature, o outcome, where string) {
	const rule = "errors come without a value, and never as an empty list"
	vals, errs := retErrs(sig, o)
	if errs == nil {
		return
	}
	rep.ok(rule, item)
	switch errStatus(o.st, errs) {
	case "empty":
		if sure(o.st) {
			rep.add(rule, item, "violation", item+" returns an error list that is not nil and empty", where)
		}
	case "unknown":
		rep.add(rule, item, "undecided", "error list "+errs.String(), where)
	case "some":
		for i, v := range vals {
			t := sig.Results().At(i).Type()
			empty, known := w.emptyValue(o.st, v, t)
			if !empty {
				st := "violation"
				if !known || !sure(o.st) {
					st = "undecided"
				}
				rep.add(rule, item, st, item+" returns errors together with the value "+v.String(), where)
				if st == "violation" {
					dumpFacts(o.st)
				}
			}
		}
	}
}

// swallowed applies C04 to one outcome.
func (w *World) swallowed(rep *Report, item string, sig *types.Signature, o outcome, where string) {
	const rule = "a failed step is reported"
	_, errs := retErrs(sig, o)
	if errs == nil {
		return
	}
	rep.ok(rule, item)
	f := ghostHas(o.st, "failed")
	if f == "" {
		f = ghostHas(o.st, "refused")
	}
	if f == "" {
		return
	}
	if errStatus(o.st, errs) == "none" && sure(o.st) {
		rep.add(rule, item, "violation", item+" reports no errors although "+f+" failed", where)
	}
}

// pure applies C23: nothing that existed before the operation differs afterwards.
func (w *World) pure(rep *Report, item string, pre *State, args []*Term, o outcome, where string) {
	const rule = "reading leaves everything as it was"
	rep.ok(rule, item)
	if m := ghostHas(o.st, "mutated"); m != "" {
		rep.add(rule, item, "violation", item+" calls "+m+" on a document it was handed", where)
		return
	}
	builder := map[*Term]bool{}
	for _, a := range args {
		if a.typ != nil && isBuilderT(a.typ) {
			builder[a] = true
		}
	}
	for b, c := range o.st.heap {
		if builder[b] {
			continue
		}
		if b.op == "obj" && strings.HasPrefix(b.s, "global:") {
			old, ok := pre.heap[b]
			if !ok || old != c {
				rep.add(rule, item, "violation", item+" changes "+b.s, where)
			}
			continue
		}
		old, ok := pre.heap[b]
		if !ok {
			if b.op == "obj" {
				continue // made by the operation itself
			}
			old = pre.content(b)
		}
		if old != c {
			if !understood(c) {
				rep.add(rule, item, "undecided", fmt.Sprintf("%s: %s", b, c), where)
				continue
			}
			rep.add(rule, item, "violation", fmt.Sprintf("%s changes %s from %s to %s", item, b, short(old), short(c)), where)
		}
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 && os.Getenv("LONG") == "" {
		s = s[:120] + "…"
	}
	return s
}

// ---- which content a read accepts ----

type readSpec struct {
	kind  string // map array string bool int uint float time errors func runes
	bits  int
	value bool // the non-pointer form
	typ   types.Type
}

// readOf derives from the signature what a read of a value returns.
func (w *World) readOf(op field) (readSpec, bool) {
	res := op.sig.Results()
	if !strings.HasPrefix(op.name, "Get") || res.Len() != 2 || !isErrs(res.At(1).Type()) {
		return readSpec{}, false
	}
	t := res.At(0).Type()
	r := readSpec{value: true}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
		r.value = false
	}
	r.typ = t
	if n := w.handleType(t); n != nil {
		r.kind = strings.ToLower(n.Obj().Name())
		return r, true
	}
	if types.Identical(t, timeType) {
		r.kind = "time"
		return r, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			r.kind = "string"
		case u.Info()&types.IsBoolean != 0:
			r.kind = "bool"
		case u.Info()&types.IsInteger != 0:
			r.kind = "int"
			if u.Info()&types.IsUnsigned != 0 {
				r.kind = "uint"
			}
			lo, hi := intRange(t)
			r.bits = new(big.Int).Sub(hi, lo).BitLen()
		case u.Info()&types.IsFloat != 0:
			r.kind = "float"
			r.bits = 64
			if u.Kind() == types.Float32 {
				r.bits = 32
			}
		}
		return r, r.kind != ""
	case *types.Slice:
		if isErrs(t) {
			r.kind, r.value = "errors", false
			return r, true
		}
		if strings.Contains(op.name, "Rune") {
			r.kind = "runes"
			return r, true
		}
	case *types.Signature:
		r.kind = "func"
		return r, true
	}
	return r, false
}

var accepts = map[string]string{
	"map": "map", "array": "array", "string": "string", "bool": "bool string", "int": "int uint string value",
	"uint": "int uint string value", "float": "float int uint string value", "time": "time string", "errors": "errors strings array",
	"func": "func", "runes": "string",
}

func kindIn(list, k string) bool {
	for _, x := range strings.Fields(list) {
		if x == k {
			return true
		}
	}
	return false
}

// resultOf is what a successful read hands out: present or nil, and the value itself.
func resultOf(st *State, v *Term, t types.Type) (nilness int, x *Term) {
	if p, ok := t.(*types.Pointer); ok {
		if st.facts.isNil(v) {
			return -1, nil
		}
		if !st.facts.nonNil(v) {
			return 0, st.load(v, p.Elem())
		}
		return 1, st.load(v, p.Elem())
	}
	return 1, v
}

func (w *World) opPos(t *target, op field) string {
	c := mkSel(t.self, op.k, op.sig)
	if c.op == "clo" {
		return w.where(c.fn.Pos(), c.fn)
	}
	return ""
}

// ---- C07 ----

// exactInt: x (a term) read as an integer of the given width.
func (w *World) exactInt(rep *Report, item string, c *Content, x *Term, rd readSpec, o outcome, sig *types.Signature, where string) {
	vals, errs := retErrs(sig, o)
	t := sizedInt(rd.bits, rd.kind == "uint")
	lo, hi := intRange(t)
	num := x
	if c.kind == "string" {
		num = mkFn("num", nil, x)
	}
	if k, ok := o.st.facts.sconst[x]; ok && c.kind == "string" {
		if _, isInt := new(big.Int).SetString(k, 10); !isInt {
			return // the property speaks about numerals
		}
	}
	const exact, refuse = "a successful integer read returns the stored number", "a number that fits is not refused"
	switch errStatus(o.st, errs) {
	case "none":
		rep.ok(exact, item)
		nn, r := resultOf(o.st, vals[0], sig.Results().At(0).Type())
		if nn < 0 {
			rep.add(exact, item, "violation", item+" reads a present number as missing", where)
			return
		}
		good := r == num || o.st.facts.eval(mkEq0(tSub(r, num))) == 1
		if c.kind == "string" && good {
			if o.st.facts.eval(mkFn("isint", tBool, x)) != 1 {
				good = false
			}
		}
		if !good {
			// a constant result with a pinned number
			st := "violation"
			if !understood(r) || !sure(o.st) || opaqueNumber(r, x) {
				st = "undecided"
			}
			rep.add(exact, item, st, fmt.Sprintf("%s returns %s for the stored number %s", item, short(r), num), where)
			if st == "violation" {
				dumpFacts(o.st)
			}
			return
		}
		l, h := o.st.facts.rng(r)
		if l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0 {
			rep.add(exact, item, "undecided", "range of the result", where)
		}
	case "some":
		rep.ok(refuse, item)
		f := o.st.facts.clone()
		if c.kind == "string" {
			if !f.assume(mkFn("isint", tBool, x), true) {
				return
			}
			if rd.kind == "uint" && !f.assume(mkFn("isuint", tBool, x), true) {
				return
			}
		}
		if !f.assume(mkLt0(tSub(num, mkBig(lo))), false) || !f.assume(mkLt0(tSub(mkBig(hi), num)), false) {
			return
		}
		l, h := f.rng(num)
		st := "violation"
		if !sure(o.st) || f.undecidedAbout(x) {
			st = "undecided"
		}
		rep.add(refuse, item, st, fmt.Sprintf("%s refuses numbers in [%v, %v]", item, l, h), where)
		if st == "violation" {
			dumpFacts(o.st)
		}
	}
}

// undecidedAbout: the path depends on an uninterpreted question about x, so that a refusal may be justified.
func (f *Facts) undecidedAbout(x *Term) bool {
	for t := range f.truth {
		switch t.op {
		case "lt0", "eq0":
			bad := false
			for a := range toLin(t.args[0]).m {
				if a.contains(x) && a != x && !(a.op == "fn" && a.s == "num") && a.op != "len" && a.op != "byteat" {
					bad = true
				}
			}
			if bad {
				return true
			}
		case "fn":
			if t.contains(x) && t.s != "isint" && t.s != "isuint" && t.s != "nilword" && t.s != "isnil" && t.s != "istype" {
				return true
			}
		}
	}
	return false
}

// opaqueNumber: r is computed by functions the analysis does not interpret.
func opaqueNumber(r, x *Term) bool {
	bad := false
	walk(r, func(t *Term) bool {
		if t.op == "fn" && t.s != "num" && !strings.HasPrefix(t.s, "to") {
			bad = true
		}
		if t.op == "sym" && strings.HasPrefix(t.s, "L") {
			bad = true
		}
		return true
	})
	return bad
}

func init() {
	reads := func(c *Content, op field) bool { return isReadName(op.name) }
	define(&propDef{id: "C03", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, func(c *Content, op field) bool {
			n := op.sig.Results().Len()
			return n > 0 && isErrs(op.sig.Results().At(n-1).Type())
		}, func(x *opRun) {
			where := w.opPos(x.t, x.op)
			rd, isRead := w.readOf(x.op)
			for _, o := range x.outs {
				if o.kind != "ret" {
					if o.kind == "undecided" {
						w.abnormal(r, "errors come without a value, and never as an empty list", x.item(), o)
					}
					continue
				}
				w.xorRule(r, x.item(), x.op.sig, o, where)
				if isRead && rd.value {
					const rule = "the non-pointer form of a read reports missing content"
					r.ok(rule, x.item())
					_, errs := retErrs(x.op.sig, o)
					missing := x.t.c.null() || x.t.c.word
					if missing && errStatus(o.st, errs) == "none" {
						r.add(rule, x.item(), "violation", x.item()+" succeeds although there is no content", where)
					}
				}
			}
		})
		w.convertRuns(r, e, w.converters(), func(x *funcRun) {
			fn := w.fn(x.fn)
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.xorRule(r, x.item(), fn.Signature, o, w.where(fn.Pos(), fn))
				}
			}
		})
	}})
	define(&propDef{id: "C04", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, reads, func(x *opRun) {
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.swallowed(r, x.item(), x.op.sig, o, w.opPos(x.t, x.op))
				}
			}
		})
		w.convertRuns(r, e, w.converters(), func(x *funcRun) {
			fn := w.fn(x.fn)
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.swallowed(r, x.item(), fn.Signature, o, w.where(fn.Pos(), fn))
				}
			}
		})
	}})
	define(&propDef{id: "C07", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, func(c *Content, op field) bool {
			rd, ok := w.readOf(op)
			return ok && (rd.kind == "int" || rd.kind == "uint") && !c.null() && !c.word && kindIn("int uint string", c.kind)
		}, func(x *opRun) {
			rd, _ := w.readOf(x.op)
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, "a successful integer read returns the stored number", x.item(), o)
					continue
				}
				w.exactInt(r, x.item(), x.t.c, x.t.x, rd, o, x.op.sig, w.opPos(x.t, x.op))
			}
		})
	}})
	define(&propDef{id: "C23", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, reads, func(x *opRun) {
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.pure(r, x.item(), x.pre, x.args, o, w.opPos(x.t, x.op))
				}
			}
		})
		w.convertRuns(r, e, w.converters(), func(x *funcRun) {
			fn := w.fn(x.fn)
			for _, o := range x.outs {
				if o.kind == "ret" {
					w.pure(r, x.item(), x.pre, x.args, o, w.where(fn.Pos(), fn))
				}
			}
		})
	}})
}
