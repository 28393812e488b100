package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The document job: every operation of Map on a document in an arbitrary state.

type mapCase struct {
	r     *boxRun
	given *Content // SetObjectForMap: what is stored
	v, x  *Term
}

// mapRuns runs f for the selected operations of a document.
func (w *World) mapRuns(rep *Report, e *Eng, rule string, keep func(op field) bool, f func(c *mapCase)) *box {
	b, why := w.mapBox(e)
	if b == nil {
		rep.add(rule, "Map", "undecided", why, "")
		return nil
	}
	n := 0
	for _, op := range fieldsOf(w.M) {
		if !keep(op) {
			continue
		}
		if w.takesAny(op) && !isReadName(op.name) {
			for _, c := range w.contents() {
				var v, x *Term
				r := w.runBox(e, b, op, func(st *State, args []*Term) []*Term {
					v, x = c.make(st)
					for i := range args {
						if types.IsInterface(op.sig.Params().At(i).Type()) {
							args[i] = v
						}
					}
					return args
				}, " of "+c.name)
				n++
				f(&mapCase{r: r, given: c, v: v, x: x})
			}
			continue
		}
		n++
		f(&mapCase{r: w.runBox(e, b, op, nil, "")})
	}
	rep.count("document operations", n)
	return b
}

func (w *World) takesAny(op field) bool {
	for i := 0; i < op.sig.Params().Len(); i++ {
		if t, ok := op.sig.Params().At(i).Type().Underlying().(*types.Interface); ok && t.Empty() {
			return true
		}
	}
	return false
}

func (w *World) mapBox(e *Eng) (*box, string) {
	w.freshContainers(e)
	return w.newBox(e, "NewMap", w.M)
}

func (w *World) boxWhere(b *box, op field) string {
	c := mkSel(b.self, op.k, op.sig)
	if c.op == "clo" {
		return w.where(c.fn.Pos(), c.fn)
	}
	return ""
}

// keyed: the operation names a key.
func keyed(op field) bool {
	return op.sig.Params().Len() > 0 && isStringType(op.sig.Params().At(0).Type())
}

func (w *World) valuePtr(b *box, key *Term) *Term {
	return mk("mget", "", types.NewPointer(w.V), nil, nil, nil, b.m0, key)
}

func (w *World) derefV(p *Term, n *types.Named) *Term {
	return mk("deref", "", n, nil, nil, nil, p)
}

func resAtom(name string, t types.Type, args ...*Term) *Term { return mkFn("res:"+name, t, args...) }

// canon writes the pointee of a pointer read as the value read.
func (w *World) canon(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if len(t.args) > 0 {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = f(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(t, args)
			}
		}
		if r.op == "deref" && r.args[0].op == "fn" && strings.HasPrefix(r.args[0].s, "res:Get") {
			in := r.args[0]
			if len(in.args) > 0 {
				if n := w.handleType(in.args[0].typ); n != nil {
					if g, ok := fieldNamed(n, strings.TrimPrefix(in.s, "res:")+"Value"); ok && r.typ != nil && types.Identical(g.sig.Results().At(0).Type(), r.typ) {
						r = mkFn(in.s+"Value", r.typ, in.args...)
					}
				}
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// target of a keyed read: the operation of the stored value that answers it.
type delegate struct {
	H     *Term // the instance asked
	name  string
	op    field
	arr   *Term // pointer to the array read first, for typed lists
	exp   *Term
	alone bool
}

func (w *World) delegateOf(b *box, op field, args []*Term) (*delegate, bool) {
	H := w.derefV(w.valuePtr(b, args[0]), w.V)
	name := op.name
	alias := map[string]string{"GetObjectForMap": "GetObject", "IsNull": "IsNil"}
	if a, ok := alias[name]; ok {
		name = a
	}
	rest := func(sig *types.Signature) bool {
		if sig.Params().Len() != op.sig.Params().Len()-1 {
			return false
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if !types.Identical(sig.Params().At(i).Type(), op.sig.Params().At(i+1).Type()) {
				return false
			}
		}
		return types.Identical(sig.Results(), op.sig.Results())
	}
	if f, ok := fieldNamed(w.V, name); ok && rest(f.sig) {
		d := &delegate{H: H, name: name, op: f}
		if op.sig.Results().Len() > 0 {
			d.exp = w.canon(resAtom(name, f.sig.Results().At(0).Type(), append([]*Term{H}, args[1:]...)...))
		}
		return d, true
	}
	if f, ok := fieldNamed(w.A, name); ok && rest(f.sig) {
		ga, ok := fieldNamed(w.V, "GetArray")
		if !ok {
			return nil, false
		}
		p := resAtom("GetArray", ga.sig.Results().At(0).Type(), H)
		HA := w.derefV(p, w.A)
		d := &delegate{H: HA, name: name, op: f, arr: p}
		d.exp = w.canon(resAtom(name, f.sig.Results().At(0).Type(), append([]*Term{HA}, args[1:]...)...))
		return d, true
	}
	return nil, false
}

// missing: is the key missing, or its value null? 1 yes, -1 no, 0 the path does not tell.
func (w *World) missing(b *box, st *State, key *Term) int {
	has := mk("mhas", "", tBool, nil, nil, nil, b.m0, key)
	p := w.valuePtr(b, key)
	if st.facts.eval(has) == -1 {
		return 1
	}
	if st.facts.isNil(p) {
		return 1
	}
	H := w.derefV(p, w.V)
	r := w.nullValue(st, H)
	if r == -1 && (st.facts.eval(has) != 1 || !st.facts.nonNil(p)) {
		// asked the value, so it is there
		return -1
	}
	return r
}

// nullValue: does the value hold nothing?
func (w *World) nullValue(st *State, H *Term) int {
	if g, ok := fieldNamed(w.V, "GetObject"); ok {
		o := resAtom("GetObject", g.sig.Results().At(0).Type(), H)
		switch st.facts.eval(mkFn("isnil", tBool, o)) {
		case 1:
			return 1
		case -1:
			return -1
		}
		switch st.facts.eval(mkEq(o, tNil)) {
		case 1:
			return 1
		}
	}
	switch st.facts.eval(mkFn("is:IsNil", tBool, H)) {
	case 1:
		return 1
	case -1:
		return -1
	}
	for k := range kindOps {
		if st.facts.eval(mkFn("is:"+k, tBool, H)) == 1 {
			return -1
		}
	}
	return 0
}

func valueForm(op field) bool {
	if op.sig.Results().Len() == 0 {
		return false
	}
	switch op.sig.Results().At(0).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		return false
	case *types.Slice:
		return strings.HasSuffix(op.name, "Value")
	}
	return true
}

// keyedRead judges one outcome of a read by key.
func (w *World) keyedRead(r *Report, c *mapCase, o outcome) {
	const rule = "a keyed read answers for the value under that key"
	b, op, item := c.r.b, c.r.op, c.r.item
	where := w.boxWhere(b, op)
	if o.kind != "ret" {
		w.abnormal(r, rule, item, o)
		return
	}
	st := o.st
	key := c.r.args[0]
	has := mk("mhas", "", tBool, nil, nil, nil, b.m0, key)
	p := w.valuePtr(b, key)
	bad := func(f string, a ...interface{}) {
		s := "violation"
		if !sure(st) {
			s = "undecided"
		}
		r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
		if s == "violation" {
			dumpFacts(st)
		}
	}
	und := func(f string, a ...interface{}) {
		r.add(rule, item, "undecided", fmt.Sprintf(f, a...), where)
	}
	r.ok(rule, item)
	if op.sig.Results().Len() == 0 || len(o.vals) == 0 {
		return
	}
	got := w.canon(o.vals[0])
	ms := w.missing(b, st, key)
	ask := func(want *Term) {
		switch truthOf(st, got, want) {
		case "ok":
		case "violation":
			bad("answers %s, not %s", short(got), short(want))
		case "maybe":
			if understood(got) {
				bad("answers %s where %s", short(got), short(want))
			} else {
				und("%s against %s", short(got), short(want))
			}
		default:
			if understood(got) && got.op == "fn" && strings.HasPrefix(got.s, "is:") {
				bad("answers %s, not %s", short(got), short(want))
			} else {
				und("%s against %s", short(got), short(want))
			}
		}
	}
	switch op.name {
	case "HasKey":
		ask(has)
		return
	case "GetValue":
		switch {
		case got == p && st.facts.eval(has) == 1:
		case got.op == "nil" && (st.facts.eval(has) == -1 || st.facts.isNil(p)):
		case got == p && st.facts.eval(has) == -1, got == p && understood(got):
			// reading a missing key of the lookup gives nil
		case understood(got):
			bad("returns %s", short(got))
		default:
			und("%s", short(got))
		}
		return
	case "IsNull":
		switch ms {
		case 1:
			ask(tTrue)
		case -1:
			ask(tFalse)
		default:
			if got == tTrue || got == tFalse {
				und("the path does not tell whether there is a value")
			} else {
				ask(mkFn("is:IsNil", tBool, w.derefV(p, w.V)))
			}
		}
		return
	}
	d, ok := w.delegateOf(b, op, c.r.args)
	if !ok {
		return
	}
	vals, errs := retErrs(op.sig, o)
	if errs == nil {
		if isBoolType(op.sig.Results().At(0).Type()) {
			want := mkFn("is:"+d.name, tBool, append([]*Term{d.H}, c.r.args[1:]...)...)
			if ms == 1 {
				if got == want {
					return
				}
				want = tFalse
			}
			ask(want)
			return
		}
		if ms == 1 {
			if got == mkStr("nil") || got.op == "nil" || got == d.exp {
				return
			}
			if understood(got) {
				bad("answers %s for a missing or null value", short(got))
			} else {
				und("%s", short(got))
			}
			return
		}
		if got == d.exp {
			return
		}
		if understood(got) {
			bad("answers %s, not %s", short(got), short(d.exp))
		} else {
			und("%s", short(got))
		}
		return
	}
	got = w.canon(vals[0])
	// the pointer form of the same read
	none := ms
	if none == 0 && d.arr != nil && st.facts.isNil(d.arr) {
		none = 1
	}
	if none <= 0 && d.arr != nil && st.facts.isNil(d.arr) {
		none = 1
	}
	if base := strings.TrimSuffix(d.name, "Value"); base != d.name {
		n := w.handleType(d.H.typ)
		if g, ok := fieldNamed(n, base); ok && st.facts.isNil(resAtom(base, g.sig.Results().At(0).Type(), append([]*Term{d.H}, c.r.args[1:]...)...)) {
			none = 1
		}
	}
	if _, isP := vals[0].typ, false; isP {
		_ = isP
	}
	switch errStatus(st, errs) {
	case "none":
		if none == 1 {
			if valueForm(op) {
				bad("succeeds although there is no value")
			} else if !st.facts.isNil(got) && got != d.exp {
				if understood(got) {
					bad("reads a missing or null value as %s", short(got))
				} else {
					und("%s", short(got))
				}
			}
			return
		}
		if got == d.exp {
			return
		}
		if st.facts.isNil(got) && st.facts.isNil(d.exp) {
			return
		}
		if got.op == "nil" {
			if none == -1 {
				bad("reads a present value as missing")
			} else {
				und("nil on a path that does not tell whether there is a value")
			}
			return
		}
		if !understood(got) {
			und("%s", short(got))
			return
		}
		bad("returns %s, not %s", short(got), short(d.exp))
	case "some":
		if ghostHas(st, "failed") != "" {
			return
		}
		if none == 1 {
			if !valueForm(op) {
				bad("reports errors for a missing or null value")
			}
			return
		}
		if none == -1 {
			bad("reports errors although the value can be read")
		} else {
			und("errors on a path that does not tell whether there is a value")
		}
	default:
		und("errors %s", short(errs))
	}
}

// isSetter: stores a value under a key.
func isSetter(op field) bool { return strings.HasPrefix(op.name, "Set") && keyed(op) }

// storedUnder is the pointer the document now holds for the key.
func (w *World) storedUnder(e *Eng, b *box, st *State, key *Term) *Term {
	m := st.load(mkAddr(b.mapC), nil)
	_, v, amb := e.mapRead(st, m, key, types.NewPointer(w.V))
	if amb != nil {
		return nil
	}
	return v
}

func (w *World) keyedWrite(r *Report, e *Eng, c *mapCase, o outcome) {
	const rule = "a write stores exactly the value it was given"
	b, op, item := c.r.b, c.r.op, c.r.item
	where := w.boxWhere(b, op)
	if o.kind != "ret" {
		w.abnormal(r, rule, item, o)
		return
	}
	st := o.st
	r.ok(rule, item)
	key := c.r.args[0]
	bad := func(f string, a ...interface{}) {
		s := "violation"
		if !sure(st) {
			s = "undecided"
		}
		r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
		if s == "violation" {
			dumpFacts(st)
		}
	}
	und := func(f string, a ...interface{}) {
		r.add(rule, item, "undecided", fmt.Sprintf(f, a...), where)
	}
	v := w.storedUnder(e, b, st, key)
	if v == nil {
		und("what the key holds afterwards")
		return
	}
	if v == w.valuePtr(b, key) {
		bad("stores nothing under the key")
		return
	}
	if op.sig.Params().Len() == 2 && types.Identical(op.sig.Params().At(1).Type(), types.NewPointer(w.V)) {
		if v != c.r.args[1] {
			if understood(v) {
				bad("stores %s", short(v))
			} else {
				und("%s", short(v))
			}
		}
		return
	}
	w.holds(r, e, st, v, c, bad, und, func(g outcome) { w.abnormal(r, rule, item, g) })
}

// holds: the value object holds what the operation was given.
func (w *World) holds(r *Report, e *Eng, st *State, v *Term, c *mapCase, bad, und func(f string, a ...interface{}), abn func(g outcome)) {
	get, ok := fieldNamed(w.V, "GetObject")
	if !ok {
		und("GetObject")
		return
	}
	if v.op == "nil" {
		bad("stores no value object")
		return
	}
	if isOpaqueStruct(st.load(v, w.V)) {
		und("%s", short(v))
		return
	}
	np := c.r.op.sig.Params().Len()
	for _, g := range e.callTerm(st.clone(), "look", mkSel(st.load(v, w.V), get.k, get.sig), get.sig, nil, nil) {
		if g.kind != "ret" {
			abn(g)
			continue
		}
		got := g.vals[0]
		if c.given != nil {
			w.sameObject(e, g.st, got, c.v, c.given, bad, und)
			continue
		}
		last := 0
		if keyed(c.r.op) && c.r.b.n == w.M {
			last = 1
		}
		if np <= last { // SetNil
			if got.op != "nil" {
				if understood(got) {
					bad("stores %s", short(got))
				} else {
					und("%s", short(got))
				}
			}
			continue
		}
		arg := c.r.args[np-1]
		at := c.r.op.sig.Params().At(np - 1).Type()
		nilArg := arg.op == "nil" || g.st.facts.isNil(arg)
		if got.op == "nil" {
			if nilArg {
				continue
			}
			if _, ok := at.Underlying().(*types.Slice); ok && !g.st.facts.nonNil(arg) {
				continue
			}
			bad("stores nothing")
			continue
		}
		if got.op != "iface" {
			und("%s", short(got))
			continue
		}
		base := func(t types.Type) types.Type {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
			return t
		}
		if !types.Identical(base(got.typ), base(at)) {
			bad("stores a %s for a %s", typeString(got.typ), typeString(at))
			continue
		}
		if _, ok := at.Underlying().(*types.Slice); ok && isErrs(base(got.typ)) {
			gt := got.args[0]
			if _, ok := got.typ.Underlying().(*types.Pointer); ok {
				gt = g.st.load(gt, base(got.typ))
			}
			if gt == arg || g.st.seqOf(gt) == g.st.seqOf(arg) {
				continue
			}
		}
		if w.handleType(base(at)) != nil {
			_, gx, gp := w.dataOf(g.st, got)
			if gp == arg && gp != nil {
				continue
			}
			ax := arg
			if p, ok := at.Underlying().(*types.Pointer); ok {
				if g.st.facts.isNil(arg) {
					bad("stores %s for nil", short(got))
					continue
				}
				ax = g.st.load(arg, p.Elem())
			}
			if gx == ax {
				continue
			}
			if understood(gx) {
				bad("stores %s", short(gx))
			} else {
				und("%s", short(gx))
			}
			continue
		}
		switch w.sameContent(e, g.st, got.args[0], got.typ, arg, at) {
		case "ok":
		case "no", "differs":
			bad("stores %s", short(got.args[0]))
		default:
			und("%s", short(got))
		}
	}
}

// sameObject: the object read back is the one of known kind that was stored.
func (w *World) sameObject(e *Eng, st *State, got, v *Term, c *Content, bad, und func(f string, a ...interface{})) {
	if got == v {
		return
	}
	if c.null() {
		if got.op == "nil" {
			return
		}
		if got.op == "iface" && (got.args[0].op == "nil" || st.facts.isNil(got.args[0])) {
			return
		}
		if understood(got) {
			bad("stores %s for nothing", short(got))
		} else {
			und("%s", short(got))
		}
		return
	}
	if c.kind == "other" || c.kind == "value" {
		if got.op == "nil" {
			und("nothing stored")
		}
		return
	}
	if got.op == "nil" {
		bad("stores nothing")
		return
	}
	if got.op != "iface" {
		und("%s", short(got))
		return
	}
	gt, gx, _ := w.dataOf(st, got)
	vt, vx, _ := w.dataOf(st, v)
	if gt == nil || vt == nil {
		und("%s", short(got))
		return
	}
	if isErrorT(v.typ) {
		if got.op == "iface" && isErrorT(got.typ) && e.errText(st, got) == e.errText(st, v) {
			return
		}
		und("%s", short(got))
		return
	}
	if !types.Identical(gt, vt) {
		bad("stores a %s for a %s", typeString(got.typ), typeString(v.typ))
		return
	}
	if gx == vx {
		return
	}
	switch w.sameContent(e, st, gx, gt, vx, vt) {
	case "ok":
	case "no", "differs":
		bad("stores %s", short(gx))
	default:
		und("%s", short(gx))
	}
}

// ---- C13 ----

// agreement judges the state after an operation: lookup, keys and values changed together.
func (w *World) agreement(r *Report, e *Eng, c *mapCase, o outcome) {
	const rule = "lookup, key list and value list change together"
	b, op, item := c.r.b, c.r.op, c.r.item
	where := w.boxWhere(b, op)
	if o.kind != "ret" {
		if o.kind == "undecided" {
			w.abnormal(r, rule, item, o)
		}
		return
	}
	st := o.st
	r.ok(rule, item)
	bad := func(f string, a ...interface{}) {
		s := "violation"
		if !sure(st) {
			s = "undecided"
		}
		r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
		if s == "violation" {
			dumpFacts(st)
		}
	}
	und := func(f string, a ...interface{}) {
		r.add(rule, item, "undecided", fmt.Sprintf(f, a...), where)
	}
	m := st.load(mkAddr(b.mapC), nil)
	K := st.seqOf(st.load(mkAddr(b.keyC), nil))
	V := (*Term)(nil)
	if b.valC != nil {
		V = st.seqOf(st.load(mkAddr(b.valC), nil))
	}
	differ := func(what string, got, want *Term) {
		if got == want {
			return
		}
		if sameSeq(st, got, want) {
			return
		}
		if !understood(got) || got.contains(mkFn("clobbered", nil)) {
			und("%s: %s against %s", what, short(got), short(want))
			return
		}
		if isSeqTerm(got) || isSeqTerm(want) {
			same, at := b.compare(st, got, want, mkLen(b.K0))
			switch same {
			case 1:
				return
			case 0:
				und("%s: %s against %s", what, short(got), short(want))
				return
			}
			bad("%s, the %s becomes %s, not %s", at, what, short(got), short(want))
			return
		}
		bad("the %s becomes %s, not %s", what, short(got), short(want))
	}
	unchanged := func() {
		differ("lookup", m, b.m0)
		differ("key list", K, b.K0)
		if V != nil {
			differ("value list", V, b.V0)
		}
	}
	if !isSetter(op) && op.name != "RemoveKey" {
		unchanged()
		return
	}
	key := c.r.args[0]
	has := st.facts.eval(mk("mhas", "", tBool, nil, nil, nil, b.m0, key))
	if has == 0 {
		has = b.has(st, key)
	}
	if has == 0 {
		if m == b.m0 && K == b.K0 && (V == nil || V == b.V0) {
			bad("changes nothing")
			return
		}
		und("the path does not tell whether the key was there")
		return
	}
	n := mkLen(b.K0)
	i := b.slotOf(st, key)
	if op.name == "RemoveKey" {
		vals := o.vals
		rt := op.sig.Results()
		var okV, errV *Term
		for k := 0; k < rt.Len() && k < len(vals); k++ {
			if isBoolType(rt.At(k).Type()) {
				okV = vals[k]
			} else {
				errV = vals[k]
			}
		}
		if has < 0 {
			unchanged()
			if errV != nil && st.facts.isNil(errV) {
				bad("reports no error for a key that is not there")
			}
			return
		}
		if okV != nil && st.facts.eval(okV) == -1 || errV != nil && st.facts.nonNil(errV) {
			bad("reports a failure for a key that is there")
		}
		if i == nil {
			if m == b.m0 || K == b.K0 {
				bad("leaves the key")
				return
			}
			if b.wrongSlot(st, key, K, V) {
				bad("removes the entry of another key")
				return
			}
			und("the position of the key")
			return
		}
		differ("lookup", m, mk("mdel", "", nil, nil, nil, nil, b.m0, key))
		cut := func(s *Term) *Term {
			return mkScat(mkSslice(s, mkInt(0), i), mkSslice(s, tAddC(i, 1), n))
		}
		differ("key list", K, cut(b.K0))
		if V != nil {
			differ("value list", V, cut(b.V0))
		}
		return
	}
	v := w.storedUnder(e, b, st, key)
	if v == nil || v == w.valuePtr(b, key) {
		bad("does not store under the key")
		return
	}
	differ("lookup", m, mk("mstore", "", nil, nil, nil, nil, b.m0, key, v))
	if has < 0 {
		differ("key list", K, mkScat(b.K0, mkSeq(key)))
		if V != nil {
			differ("value list", V, mkScat(b.V0, mkSeq(v)))
		}
		return
	}
	differ("key list", K, b.K0)
	if V != nil {
		if i == nil {
			if V == b.V0 {
				bad("leaves the old value in the value list")
			} else if b.wrongSlot(st, key, K, V) {
				bad("changes the value of another key in the value list")
			} else {
				und("the position of the key")
			}
			return
		}
		differ("value list", V, mkSupd(b.V0, i, v))
	}
}

// sameSeq: equal up to the way sequences are cut.
func sameSeq(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	norm := func(t *Term) *Term {
		if t.op == "scat" {
			var ps []*Term
			for _, p := range t.args {
				if p.op == "sslice" {
					p = st.sslice(p.args[0], p.args[1], p.args[2])
					if st.facts.eval(mkEq0(tSub(mkLen(p), mkInt(0)))) == 1 {
						continue
					}
				}
				ps = append(ps, p)
			}
			return mkScat(ps...)
		}
		return t
	}
	return norm(a) == norm(b)
}

// snapshots judges the lists handed out.
func (w *World) snapshots(r *Report, e *Eng, c *mapCase, o outcome) {
	const rule = "lists handed out are complete and are snapshots"
	b, op, item := c.r.b, c.r.op, c.r.item
	if o.kind != "ret" || len(o.vals) == 0 {
		w.abnormal(r, rule, item, o)
		return
	}
	where := w.boxWhere(b, op)
	st := o.st
	r.ok(rule, item)
	bad := func(f string, a ...interface{}) {
		s := "violation"
		if !sure(st) {
			s = "undecided"
		}
		r.add(rule, item, s, item+": "+fmt.Sprintf(f, a...), where)
		if s == "violation" {
			dumpFacts(st)
		}
	}
	und := func(f string, a ...interface{}) {
		r.add(rule, item, "undecided", fmt.Sprintf(f, a...), where)
	}
	v := o.vals[0]
	if st.facts.isNil(v) {
		if _, hi := st.facts.rng(mkLen(b.K0)); hi == nil || hi.Sign() != 0 {
			bad("hands out nothing")
		}
		return
	}
	if _, ok := op.sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
		if !freshSlice(c.r.pre, v) {
			if v.op == "slice" || v == b.ks || v == b.K0 {
				bad("hands out the document's own key list")
			} else {
				und("%s", short(v))
			}
			return
		}
		w.listOf(st, b, st.seqOf(v), mkLen(b.K0), func(i int) *Term { return mkElem(b.K0, mkInt(int64(i)), tString) }, func(got, want *Term) bool { return got == want }, bad, und)
		return
	}
	log, ok := logOf(st, v)
	if !ok {
		if v.op == "addr" && !freshObj(c.r.pre, v) {
			bad("hands out the document's own value list")
		} else {
			und("%s", short(v))
		}
		return
	}
	w.listOf(st, b, log, mkLen(b.K0), func(i int) *Term {
		return w.valuePtr(b, mkElem(b.K0, mkInt(int64(i)), tString))
	}, func(got, want *Term) bool { return got == mkFn("ev:AppendValue", nil, want) }, bad, und)
}

// freshSlice: the slice has a backing that the operation made.
func freshSlice(pre *State, v *Term) bool {
	if v.op != "slice" {
		return false
	}
	o := v.args[0]
	if o.op == "addr" {
		o = o.args[0]
	}
	if o.op != "obj" {
		return false
	}
	_, old := pre.heap[o]
	return !old
}

// listOf compares a sequence with its expected entries for documents of every size up to the largest one that the
// summary distinguishes.
func (w *World) listOf(st *State, b *box, s, size *Term, want func(i int) *Term, same func(got, want *Term) bool, bad, und func(f string, a ...interface{})) {
	if !sized(st, s, size, judge{bad: bad, und: und}) {
		return
	}
	for _, n := range sizesOf(s) {
		alts, ok := b.expandSeq(st, s, size, n)
		if !ok {
			und("%s", short(s))
			return
		}
		for _, a := range alts {
			for i := 0; i < len(a) || i < n; i++ {
				if i >= len(a) {
					bad("for %d entries, entry %d is missing", n, i)
					return
				}
				if i >= n {
					bad("for %d entries, there is one too many: %s", n, short(a[i]))
					return
				}
				if !same(a[i], want(i)) {
					if understood(a[i]) {
						bad("for %d entries, entry %d is %s", n, i, short(a[i]))
					} else {
						und("%s", short(a[i]))
					}
					return
				}
			}
		}
	}
}

func init() {
	define(&propDef{id: "C08", run: func(w *World, r *Report) {
		e := w.engine()
		w.mapRuns(r, e, "documents", func(op field) bool { return keyed(op) && op.name != "RemoveKey" }, func(c *mapCase) {
			for _, o := range c.r.outs {
				if isSetter(c.r.op) {
					w.keyedWrite(r, e, c, o)
				} else {
					w.keyedRead(r, c, o)
				}
			}
		})
	}})
	define(&propDef{id: "C13", run: func(w *World, r *Report) {
		e := w.engine()
		w.mapRuns(r, e, "documents", func(op field) bool { return true }, func(c *mapCase) {
			if c.given != nil && c.given.name != "string" && c.given.name != "nil" {
				return
			}
			for _, o := range c.r.outs {
				if !keyed(c.r.op) && c.r.op.sig.Params().Len() == 0 {
					rt := c.r.op.sig.Results()
					if rt.Len() == 1 && (types.Identical(rt.At(0).Type(), types.NewSlice(tString)) || types.Identical(rt.At(0).Type(), types.NewPointer(w.A))) {
						w.snapshots(r, e, c, o)
					}
				}
				w.agreement(r, e, c, o)
			}
		})
	}})
}
