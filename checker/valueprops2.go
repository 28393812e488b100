package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- C21 ----

// question: what each type question asks. nil: not a question about the kind of content.
func (w *World) question(name string) func(c *Content) bool {
	bits := map[string]int{"8": 8, "16": 16, "32": 32, "64": 64}
	is := func(k string, n int, named string) func(c *Content) bool {
		return func(c *Content) bool {
			if !kindIn(k, c.kind) {
				return false
			}
			if n == 0 {
				return true
			}
			t := c.typ
			if c.ptr {
				t = t.Underlying().(*types.Pointer).Elem()
			}
			return typeString(t) == named
		}
	}
	switch name {
	case "IsMap":
		return is("map", 0, "")
	case "IsArray":
		return is("array", 0, "")
	case "IsString":
		return is("string", 0, "")
	case "IsBool":
		return is("bool", 0, "")
	case "IsNumber":
		return is("int uint float", 0, "")
	case "IsInteger":
		return is("int uint", 0, "")
	case "IsFloat":
		return is("float", 0, "")
	case "IsInt":
		return is("int", 0, "")
	case "IsUInt":
		return is("uint", 0, "")
	}
	for _, p := range []string{"IsInt", "IsUInt", "IsFloat"} {
		if strings.HasPrefix(name, p) {
			if n, ok := bits[name[len(p):]]; ok {
				base := strings.ToLower(p[2:])
				return is(base, n, fmt.Sprintf("%s%d", base, n))
			}
		}
	}
	return nil
}

// readsFor: the reads a yes answer promises.
var readsFor = map[string][]string{
	"IsMap": {"GetMap", "GetMapValue"}, "IsArray": {"GetArray", "GetArrayValue"}, "IsString": {"GetString", "GetStringValue"},
	"IsBool": {"GetBool", "GetBoolValue"}, "IsFloat64": {"GetFloat64", "GetFloat64Value"}, "IsFloat": {"GetFloat64", "GetFloat64Value"},
	"IsFloat32": {"GetFloat32", "GetFloat32Value", "GetFloat64"}, "IsNumber": {"GetFloat64", "GetFloat64Value"},
	"IsInt": {"GetInt64", "GetInt64Value", "GetInt", "GetIntValue"}, "IsUInt": {"GetUInt64", "GetUInt64Value", "GetUInt", "GetUIntValue"},
	"IsInt8": {"GetInt8", "GetInt8Value"}, "IsInt16": {"GetInt16", "GetInt16Value"}, "IsInt32": {"GetInt32", "GetInt32Value"}, "IsInt64": {"GetInt64", "GetInt64Value"},
	"IsUInt8": {"GetUInt8", "GetUInt8Value"}, "IsUInt16": {"GetUInt16", "GetUInt16Value"}, "IsUInt32": {"GetUInt32", "GetUInt32Value"}, "IsUInt64": {"GetUInt64", "GetUInt64Value"},
}

// truthOf compares a boolean result with what is expected under the facts of its path.
func truthOf(st *State, got, want *Term) string {
	if got == want {
		return "ok"
	}
	g, x := st.facts.eval(got), st.facts.eval(want)
	switch {
	case g != 0 && x != 0:
		if g == x {
			return "ok"
		}
		return "violation"
	case g == 0 && x == 0:
		// same question in another form?
		for _, v := range []bool{true, false} {
			f := st.facts.clone()
			if !f.assume(want, v) {
				continue
			}
			r := f.eval(got)
			if r == 0 || (r > 0) != v {
				return "unknown"
			}
		}
		return "ok"
	case x == 0:
		f := st.facts.clone()
		if f.assume(want, g < 0) {
			return "maybe"
		}
		return "ok"
	}
	f := st.facts.clone()
	if f.assume(got, x < 0) {
		return "maybe"
	}
	return "ok"
}

func (w *World) typeQuestions(r *Report, c *Content, op field, x *opRun) {
	const rule = "a type question answers for the content"
	where := w.opPos(x.t, op)
	item := x.item()
	judge := func(o outcome, got, want *Term) {
		r.ok(rule, item)
		switch truthOf(o.st, got, want) {
		case "ok":
		case "violation":
			if sure(o.st) {
				r.add(rule, item, "violation", fmt.Sprintf("%s answers %s, the content says %s", item, short(got), short(want)), where)
				dumpFacts(o.st)
			}
		case "maybe":
			if sure(o.st) && !o.st.facts.undecidedAbout(x.t.x) {
				r.add(rule, item, "violation", fmt.Sprintf("%s answers %s on a path where the content says %s", item, short(got), short(want)), where)
				dumpFacts(o.st)
			} else if ex, ok := refute(o.st, got, want); ok && sure(o.st) {
				r.add(rule, item, "violation", fmt.Sprintf("%s answers %s", item, ex), where)
				dumpFacts(o.st)
			} else {
				r.add(rule, item, "undecided", short(got)+" against "+short(want), where)
			}
		default:
			if ex, ok := refute(o.st, got, want); ok && sure(o.st) {
				r.add(rule, item, "violation", fmt.Sprintf("%s answers %s", item, ex), where)
				dumpFacts(o.st)
				return
			}
			r.add(rule, item, "undecided", short(got)+" against "+short(want), where)
		}
	}
	q := w.question(op.name)
	for _, o := range x.outs {
		if o.kind != "ret" {
			w.abnormal(r, rule, item, o)
			continue
		}
		if len(o.vals) == 0 {
			continue
		}
		got := o.vals[0]
		st := o.st
		str := mkBool(c.kind == "string" && !c.null())
		var want *Term
		switch {
		case q != nil:
			want = mkBool(!c.null() && q(c))
		case op.name == "IsNil":
			want = mkBool(c.null())
			if c.kind == "error" && c.ptr && c.typ != nil && !c.nilPtr && c.typ.String() == "*error" {
				continue
			}
		case op.name == "GetType":
			n := "nil"
			if !c.null() {
				n = typeString(c.typ)
			}
			r.ok(rule, item)
			if got != mkStr(n) {
				s := "violation"
				if got.op != "str" || !sure(st) {
					s = "undecided"
				}
				r.add(rule, item, s, fmt.Sprintf("%s names the type %s, not %s", item, short(got), n), where)
			}
			continue
		case op.name == "IsBoolTrue" || op.name == "IsBoolFalse":
			want = tFalse
			if c.kind == "bool" && !c.null() {
				want = x.t.x
				if op.name == "IsBoolFalse" {
					want = mkNot(want)
				}
			}
		case op.name == "IsEmptyString":
			want = tFalse
			if str == tTrue {
				want = mkEq(x.t.x, mkStr(""))
			}
		case op.name == "IsValueEqualToStringValue":
			want = tFalse
			if str == tTrue {
				want = mkEq(x.t.x, x.args[0])
			}
		case op.name == "IsValueEqualToString":
			want = tFalse
			isnil := st.facts.isNil(x.args[0])
			if c.null() {
				want = mkEq(x.args[0], tNil)
			} else if str == tTrue && !isnil {
				want = mkAnd(mkNot(mkEq(x.args[0], tNil)), mkEq(x.t.x, st.load(x.args[0], tString)))
				if st.facts.nonNil(x.args[0]) {
					want = mkEq(x.t.x, st.load(x.args[0], tString))
				}
			}
		default:
			continue
		}
		judge(o, got, want)
	}
}

func (w *World) promisedReads(r *Report, e *Engine1, c *Content) {
}

type Engine1 = Eng

// ---- C22 ----

// setterPairs: each setter with the getters of the same name.
func (w *World) setterGetters(n *types.Named) [][2]field {
	var r [][2]field
	for _, s := range fieldsOf(n) {
		if !strings.HasPrefix(s.name, "Set") {
			continue
		}
		base := strings.TrimSuffix(strings.TrimPrefix(s.name, "Set"), "Value")
		if base == "" {
			continue
		}
		for _, g := range []string{"Get" + base, "Get" + base + "Value"} {
			if f, ok := fieldNamed(n, g); ok {
				r = append(r, [2]field{s, f})
			}
		}
	}
	return r
}

// sameContent: is a the same content as b (following one pointer on either side)? "ok", "no", "unknown"
func (w *World) sameContent(e *Eng, st *State, a *Term, ta types.Type, b *Term, tb types.Type) string {
	pa, aIsP := ta.Underlying().(*types.Pointer)
	pb, bIsP := tb.Underlying().(*types.Pointer)
	if aIsP && bIsP {
		if a == b {
			return "ok"
		}
		an, bn := st.facts.isNil(a), st.facts.isNil(b)
		if an || bn {
			if an && bn {
				return "ok"
			}
			if an && st.facts.nonNil(b) || bn && st.facts.nonNil(a) {
				return "no"
			}
			return "unknown"
		}
	} else if aIsP && st.facts.isNil(a) || bIsP && st.facts.isNil(b) {
		return "no"
	}
	if aIsP {
		a, ta = st.load(a, pa.Elem()), pa.Elem()
	}
	if bIsP {
		b, tb = st.load(b, pb.Elem()), pb.Elem()
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		sa, sb := st.seqOf(a), st.seqOf(b)
		if sa == sb || a == b {
			return "ok"
		}
		if st.facts.isNil(b) && mkLen(sa) == mkInt(0) || st.facts.isNil(a) && st.facts.isNil(b) {
			return "ok"
		}
		return "unknown"
	}
	if a == b {
		return "ok"
	}
	if isErrorT(ta) && isErrorT(tb) {
		if e.errText(st, a) == e.errText(st, b) {
			return "ok"
		}
	}
	switch st.facts.eval(mkEq(a, b)) {
	case 1:
		return "ok"
	case -1:
		return "no"
	}
	if _, ok := a.constInt(); ok {
		return "no"
	}
	if a.op == "str" || a.op == "float" || a == tTrue || a == tFalse || a.op == "nil" {
		return "no"
	}
	if !understood(a) {
		return "unknown"
	}
	// a function of b that is not b
	return "differs"
}

func (w *World) setGet(r *Report, e *Eng, start *Content) {
	const rule = "the getter returns what the setter was given"
	ts, _ := w.construct(e, start)
	pairs := w.setterGetters(w.V)
	for _, t := range ts {
		for _, p := range pairs {
			set, get := p[0], p[1]
			if set.sig.Params().Len() != 1 {
				continue
			}
			at := set.sig.Params().At(0).Type()
			var variants []*Term // nil or not, for pointers
			nm := "given " + set.name
			item := fmt.Sprintf("Value.%s then %s, starting from %s", set.name, get.name, start.name)
			arg := mkSym("given", at)
			variants = append(variants, arg)
			_, ptr := at.Underlying().(*types.Pointer)
			if ptr {
				variants = append(variants, tNil)
			}
			_ = nm
			for _, a := range variants {
				st := t.st.clone()
				st.frames = nil
				it := item
				if ptr {
					if a == tNil {
						it += " (nil)"
					} else {
						st.facts.assume(mkEq(a, tNil), false)
					}
				}
				if isStringType(at) {
					// both a word for nil and not
				}
				e.steps = 0
				callee := mkSel(t.self, set.k, set.sig)
				where := w.opPos(t, get)
				for _, o := range e.callTerm(st, "set", callee, set.sig, []*Term{a}, nil) {
					if o.kind != "ret" {
						w.abnormal(r, rule, it, o)
						continue
					}
					gc := mkSel(o.st.load(t.ptr, w.V), get.k, get.sig)
					var gargs []*Term
					if get.sig.Params().Len() > 0 {
						continue
					}
					for _, g := range e.callTerm(o.st, "get", gc, get.sig, gargs, nil) {
						if g.kind != "ret" {
							w.abnormal(r, rule, it, g)
							continue
						}
						r.ok(rule, it)
						vals, errs := retErrs(get.sig, g)
						rt := get.sig.Results().At(0).Type()
						es := "none"
						if errs != nil {
							es = errStatus(g.st, errs)
						}
						if a == tNil {
							if _, isP := rt.Underlying().(*types.Pointer); isP {
								if es != "none" || !g.st.facts.isNil(vals[0]) {
									r.add(rule, it, "violation", it+": a nil that was set is not read back as nil", where)
								}
							}
							continue
						}
						bad := ""
						word := false
						for t, v := range g.st.facts.truth {
							if v && t.op == "fn" && t.s == "nilword" {
								word = true
							}
						}
						itw := it
						if word {
							itw += " (a word for nil)"
							r.ok(rule, itw)
						}
						switch es {
						case "none":
							switch w.sameContent(e, g.st, vals[0], rt, a, at) {
							case "ok":
							case "no", "differs":
								bad = fmt.Sprintf("returns %s", short(vals[0]))
								if p, ok := rt.Underlying().(*types.Pointer); ok && !g.st.facts.isNil(vals[0]) {
									bad = fmt.Sprintf("returns %s", short(g.st.load(vals[0], p.Elem())))
								}
							default:
								r.add(rule, itw, "undecided", short(vals[0]), where)
							}
						case "some":
							bad = "reports errors"
						default:
							r.add(rule, itw, "undecided", "errors "+short(errs), where)
						}
						if bad != "" {
							s := "violation"
							if !sure(g.st) {
								s = "undecided"
							}
							r.add(rule, itw, s, itw+": the getter "+bad, where)
							if s == "violation" {
								dumpFacts(g.st)
							}
						}
					}
				}
			}
		}
	}
}

// ---- C10 / C17 ----

// dataOf dissects an interface value into kind-of-content and what it holds.
func (w *World) dataOf(st *State, v *Term) (t types.Type, x *Term, ptr *Term) {
	if v.op != "iface" {
		return nil, v, nil
	}
	if p, ok := v.typ.Underlying().(*types.Pointer); ok && !isErrorT(v.typ) {
		if st.facts.isNil(v.args[0]) {
			return nil, tNil, nil
		}
		return p.Elem(), st.load(v.args[0], p.Elem()), v.args[0]
	}
	return v.typ, v.args[0], nil
}

func freshObj(pre *State, p *Term) bool {
	b := p
	if b.op == "addr" {
		b = b.args[0]
	}
	if b.op == "slice" {
		b = b.args[0]
		if b.op == "addr" {
			b = b.args[0]
		}
	}
	if b.op != "obj" {
		return false
	}
	_, old := pre.heap[b]
	return !old
}

func (w *World) cloneValue(r *Report, e *Eng, x *opRun) {
	c := x.t.c
	item := x.item()
	where := w.opPos(x.t, x.op)
	const content, fresh, succeeds = "a clone holds the same content", "a clone shares nothing with its original", "data can be cloned"
	for _, o := range x.outs {
		if o.kind != "ret" {
			w.abnormal(r, content, item, o)
			continue
		}
		vals, errs := retErrs(x.op.sig, o)
		switch errStatus(o.st, errs) {
		case "some":
			if ghostHas(o.st, "failed") == "" && c.data() {
				r.add(content, item, "violation", item+" reports errors for content that documents hold", where)
			}
			continue
		case "none":
		default:
			r.add(content, item, "undecided", "errors "+short(errs), where)
			continue
		}
		r.ok(content, item)
		r.ok(fresh, item)
		st := o.st
		if !freshObj(x.pre, vals[0]) {
			r.add(fresh, item, "violation", item+" returns a value that existed before: "+short(vals[0]), where)
			continue
		}
		get, ok := fieldNamed(w.V, "GetObject")
		if !ok {
			r.add(content, item, "undecided", "GetObject", where)
			continue
		}
		callee := mkSel(st.load(vals[0], w.V), get.k, get.sig)
		for _, g := range e.callTerm(st, "look", callee, get.sig, nil, nil) {
			if g.kind != "ret" {
				w.abnormal(r, content, item, g)
				continue
			}
			w.compareClone(r, e, x.pre, g.st, x.t.v, g.vals[0], c, item, where)
		}
	}
}

func (w *World) compareClone(r *Report, e *Eng, pre, st *State, orig, copy *Term, c *Content, item, where string) {
	const content, fresh = "a clone holds the same content", "a clone shares nothing with its original"
	bad := func(rule, f string, a ...interface{}) {
		s := "violation"
		if !sure(st) {
			s = "undecided"
		}
		r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
		if s == "violation" {
			dumpFacts(st)
		}
	}
	ct, cx, cp := w.dataOf(st, copy)
	if c.null() || c.word {
		if !(copy.op == "nil" || ct == nil) {
			bad(content, "the clone of nothing holds %s", short(copy))
		}
		return
	}
	_, ox, _ := w.dataOf(pre, orig)
	if copy.op == "nil" || ct == nil {
		if copy.op == "nil" || copy.op == "iface" {
			bad(content, "the clone holds nothing")
		} else {
			r.add(content, item, "undecided", short(copy), where)
		}
		return
	}
	// independence
	if cp != nil && !freshObj(pre, cp) {
		bad(fresh, "the clone points to %s", short(cp))
	}
	switch c.kind {
	case "string", "bool", "int", "uint", "float", "time":
		t := c.typ
		if c.ptr {
			t = t.Underlying().(*types.Pointer).Elem()
		}
		if !types.Identical(ct, t) {
			bad(content, "the clone of %s holds %s", typeString(t), typeString(ct))
			return
		}
		switch w.sameContent(e, st, cx, ct, ox, ct) {
		case "ok":
		case "no", "differs":
			bad(content, "the clone holds %s instead of %s", short(cx), short(ox))
		default:
			r.add(content, item, "undecided", short(cx), where)
		}
	case "error":
		var ot, nt *Term
		if c.ptr && !isErrorT(c.typ) { // *error
			oe := ox
			if st.facts.isNil(oe) {
				if !(cx.op == "nil" || st.facts.isNil(cx)) {
					bad(content, "the clone of a nil error holds %s", short(cx))
				}
				return
			}
			ot = e.errText(st, oe)
		} else if isErrorT(c.typ) {
			ot = e.errText(st, orig)
		} else {
			ot = mkFn("sprint%s", tString, orig)
		}
		ce := copy
		if cp != nil {
			ce = cx
		}
		if ce.op == "nil" {
			bad(content, "the clone of an error holds a nil error")
			return
		}
		if !(ce.op == "iface" && isErrorT(ce.typ)) && !(ce.typ != nil && isErrorT(ce.typ)) {
			bad(content, "the clone of an error holds %s", short(ce))
			return
		}
		nt = e.errText(st, ce)
		if nt == ot {
			return
		}
		alt := mkFn("sprint%s", tString, pointee(st, orig))
		if nt == alt || nt == mkFn("sprint%s", tString, orig) || nt == mkFn("sprint%v", tString, orig) {
			return
		}
		if nt.op == "fn" && strings.HasPrefix(nt.s, "sprint") {
			r.add(content, item, "undecided", short(nt), where)
			return
		}
		bad(content, "the clone's error reads %s instead of %s", short(nt), short(ot))
	case "map", "array":
		h := ox
		switch {
		case cx == mkFn("cloneof", ct, h):
		case cx == h:
			bad(fresh, "the clone holds the same %s", c.kind)
		default:
			if understood(cx) {
				bad(content, "the clone holds %s instead of a clone of the %s", short(cx), c.kind)
			}
		}
	case "errors", "strings":
		os, cs := pre.seqOf(ox), st.seqOf(cx)
		if cx == ox || cx.op == "slice" && !freshObj(pre, cx) {
			bad(fresh, "the clone shares the list %s", short(cx))
			return
		}
		if c.kind == "strings" {
			if cs != os && !(cs.op == "scat" && len(cs.args) == 1 && cs.args[0] == os) {
				r.add(content, item, "undecided", short(cs)+" against "+short(os), where)
			}
			return
		}
		w.sameErrors(r, e, st, os, cs, content, item, where, bad)
	default:
		r.add(content, item, "undecided", "content "+c.kind, where)
	}
}

func pointee(st *State, v *Term) *Term {
	if v.op == "iface" {
		if p, ok := v.typ.Underlying().(*types.Pointer); ok {
			return mkIface(p.Elem(), st.load(v.args[0], p.Elem()))
		}
	}
	return v
}

// sameErrors: cs has one error per error of os, in order, with the same text; nil for nil.
func (w *World) sameErrors(r *Report, e *Eng, st *State, os, cs *Term, rule, item, where string, bad func(rule, f string, a ...interface{})) {
	if st.facts.eval(mkEq0(mkLen(os))) == 1 && st.facts.eval(mkEq0(mkLen(cs))) == 1 {
		return
	}
	if cs.op != "smap" {
		r.add(rule, item, "undecided", short(cs), where)
		return
	}
	if cs.args[0] != mkInt(0) || st.facts.eval(mkEq0(tSub(cs.args[1], mkLen(os)))) != 1 {
		bad(rule, "the list holds %s errors for %s", short(cs.args[1]), mkLen(os))
		return
	}
	src := mkElem(os, kappa, errType)
	for _, k := range smapCases(cs) {
		if k.piece.op != "seq" || len(k.piece.args) != 1 {
			bad(rule, "the list holds %s for one error", short(k.piece))
			continue
		}
		p := k.piece.args[0]
		f := st.clone()
		for _, g := range k.guards {
			f.facts.assume(g, true)
		}
		if p.op == "nil" {
			if !f.facts.isNil(src) {
				bad(rule, "an error is copied as nil %s %v", src, k.guards)
			}
			continue
		}
		if p == src {
			if f.facts.isNil(src) {
				continue
			}
			bad(rule, "the error is shared")
			continue
		}
		if t := e.errText(f, p); t != mkFn("errtext", tString, src) {
			bad(rule, "an error's text becomes %s", short(t))
		}
	}
}

func init() {
	define(&propDef{id: "C21", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, func(c *Content, op field) bool {
			if c.word {
				return false
			}
			return w.question(op.name) != nil || op.name == "IsNil" || op.name == "GetType" || op.name == "IsBoolTrue" || op.name == "IsBoolFalse" || strings.HasPrefix(op.name, "IsValueEqual") || op.name == "IsEmptyString"
		}, func(x *opRun) { w.typeQuestions(r, x.t.c, x.op, x) })
		const rule = "a yes answer means the read succeeds"
		promised := map[string][]string{}
		for q, rs := range readsFor {
			for _, n := range rs {
				promised[n] = append(promised[n], q)
			}
		}
		w.valueRuns(r, e, func(c *Content, op field) bool {
			if c.word || c.null() {
				return false
			}
			for _, q := range promised[op.name] {
				if w.question(q)(c) {
					return true
				}
			}
			return false
		}, func(x *opRun) {
			where := w.opPos(x.t, x.op)
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, rule, x.item(), o)
					continue
				}
				r.ok(rule, x.item())
				_, errs := retErrs(x.op.sig, o)
				if errs != nil && errStatus(o.st, errs) == "some" && ghostHas(o.st, "failed") == "" {
					s := "violation"
					if !sure(o.st) {
						s = "undecided"
					}
					r.add(rule, x.item(), s, x.item()+" reports errors although the type question answers yes", where)
					if s == "violation" {
						dumpFacts(o.st)
					}
				}
			}
		})
	}})
	define(&propDef{id: "C22", run: func(w *World, r *Report) {
		e := w.engine()
		w.setGet(r, e, &Content{name: "nil", kind: "null"})
		w.setGet(r, e, &Content{name: "string", kind: "string", typ: tString})
	}})
	define(&propDef{id: "C10", run: func(w *World, r *Report) {
		e := w.engine()
		w.valueRuns(r, e, func(c *Content, op field) bool { return op.name == "Clone" && c.data() }, func(x *opRun) { w.cloneValue(r, e, x) })
	}})
	define(&propDef{id: "C17", run: func(w *World, r *Report) {
		e := w.engine()
		const cl, ser = "data can be cloned", "data can be serialised"
		w.valueRuns(r, e, func(c *Content, op field) bool { return op.name == "Clone" && c.data() }, func(x *opRun) {
			where := w.opPos(x.t, x.op)
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, cl, x.item(), o)
					continue
				}
				r.ok(cl, x.item())
				_, errs := retErrs(x.op.sig, o)
				if errStatus(o.st, errs) == "some" && ghostHas(o.st, "failed") == "" && sure(o.st) {
					r.add(cl, x.item(), "violation", x.item()+" is refused", where)
				}
			}
		})
		w.convertRuns(r, e, w.serialisers(), func(x *funcRun) {
			fn := w.fn(x.fn)
			if !x.c.data() && x.c.kind != "func" && x.c.kind != "rawmap" {
				return
			}
			for _, o := range x.outs {
				if o.kind != "ret" {
					w.abnormal(r, ser, x.item(), o)
					continue
				}
				r.ok(ser, x.item())
				_, errs := retErrs(fn.Signature, o)
				if errStatus(o.st, errs) != "some" || ghostHas(o.st, "failed") != "" || !sure(o.st) {
					continue
				}
				if x.c.kind == "float" && notFinite(o.st) {
					continue
				}
				if x.c.kind == "func" && x.c.ptr && !x.c.nilPtr {
				}
				r.add(ser, x.item(), "violation", x.item()+" is refused", w.where(fn.Pos(), fn))
				dumpFacts(o.st)
			}
		})
	}})
}

// notFinite: the path knows that a float is NaN or infinite.
func notFinite(st *State) bool {
	for t, v := range st.facts.truth {
		if t.op == "fn" && (t.s == "isnan" || t.s == "isposinf" || t.s == "isneginf") && v {
			return true
		}
		if t.op == "and" && !v {
			for _, a := range t.args {
				for a.op == "not" {
					a = a.args[0]
				}
				if a.op == "fn" && (a.s == "isnan" || a.s == "isposinf" || a.s == "isneginf") {
					return true
				}
			}
		}
	}
	return false
}

// serialisers: the converters that write to a builder.
func (w *World) serialisers() []string {
	var r []string
	for _, n := range w.converters() {
		ps := w.fn(n).Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if isBuilderT(ps.At(i).Type()) {
				r = append(r, n)
			}
		}
	}
	return r
}
