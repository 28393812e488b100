package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// The writing job: what serialisation writes, judged on the text appended to the builder (C11, C12, C20).

const (
	ruleWriteList = "every entry is written once, in order, separated exactly between entries"
	ruleQuote     = "text is written between quotes with every quote escaped"
	ruleSlash     = "text that contains a backslash cannot end its string early"
	ruleScalar    = "a scalar is written without loss"
)

type tok struct {
	s      string // constant text, when t is nil
	t      *Term
	guards []*Term
}

// appendedText is what was appended to the builder as a sequence of texts; nil when the builder was changed otherwise.
func appendedText(st *State, b *Term) *Term {
	c := st.content(b)
	if c.op == "deref" || c == mkFn("before", nil, b) {
		return mkSeq()
	}
	if c.op == "scat" && c.args[0] == mkFn("before", nil, b) {
		return mkScat(c.args[1:]...)
	}
	return nil
}

// openText undoes texts built from sequences.
func openText(s *Term) *Term {
	switch s.op {
	case "seq":
		var ps []*Term
		for _, a := range s.args {
			ps = append(ps, openPart(a))
		}
		return mkScat(ps...)
	case "scat":
		var ps []*Term
		for _, a := range s.args {
			ps = append(ps, openText(a))
		}
		return mkScat(ps...)
	case "smap":
		var cs []smapCase
		for _, c := range smapCases(s) {
			cs = append(cs, smapCase{piece: openText(c.piece), guards: c.guards})
		}
		return mkSmap(s.args[0], s.args[1], cs)
	}
	return s
}

// openJoin writes a joined list as its texts with the separator before all but the first.
func openJoin(list, sep *Term) *Term {
	if list.op != "smap" || smapPieceLen(list) != 1 || list.args[0] != mkInt(0) {
		return nil
	}
	first := mkEq0(kappa)
	var cs []smapCase
	for _, c := range smapCases(list) {
		p := openText(c.piece)
		cs = append(cs, smapCase{p, append([]*Term{first}, c.guards...)},
			smapCase{mkScat(mkSeq(sep), p), append([]*Term{mkLt0(tScale(kappa, -1))}, c.guards...)})
	}
	return mkSmap(list.args[0], list.args[1], cs)
}

func openPart(a *Term) *Term {
	if a.op == "fn" && a.s == "join" {
		if t := openJoin(a.args[0], a.args[1]); t != nil {
			return t
		}
	}
	if a.op == "cat" {
		var ps []*Term
		for _, x := range a.args {
			ps = append(ps, openPart(x))
		}
		return mkScat(ps...)
	}
	if a.op == "fn" && a.s == "text" {
		return openText(a.args[0])
	}
	return mkSeq(a)
}

// tokens writes the text out for n entries.
func tokens(st *State, b *box, s, size *Term, n int) ([][]tok, bool) {
	alts, ok := b.expandLog(st, openText(s), size, n)
	if !ok {
		return nil, false
	}
	var r [][]tok
	for _, a := range alts {
		var ts []tok
		var add func(t *Term, g []*Term)
		add = func(t *Term, g []*Term) {
			switch {
			case t.op == "cat":
				for _, x := range t.args {
					add(x, g)
				}
			case t.op == "str":
				if len(ts) > 0 && ts[len(ts)-1].t == nil {
					ts[len(ts)-1].s += t.s
					ts[len(ts)-1].guards = append(ts[len(ts)-1].guards, g...)
				} else if t.s != "" {
					ts = append(ts, tok{s: t.s, guards: append([]*Term{}, g...)})
				}
			default:
				ts = append(ts, tok{t: t, guards: g})
			}
		}
		for _, x := range a {
			add(x.ev, x.guards)
		}
		r = append(r, ts)
	}
	return r, true
}

// entriesOnly keeps one term per written entry, so that the number of entries can be compared symbolically.
func entriesOnly(s *Term) *Term {
	keep := func(args []*Term) *Term {
		var r []*Term
		for _, a := range args {
			if a.op == "fn" && a.s == "ser" {
				r = append(r, a)
			}
		}
		if len(r) == 0 {
			for _, a := range args {
				if a.op == "str" && strings.Contains(a.s, "null") {
					r = append(r, a)
				}
			}
		}
		return mkSeq(r...)
	}
	switch s.op {
	case "seq":
		return keep(s.args)
	case "scat":
		var ps []*Term
		for _, a := range s.args {
			ps = append(ps, entriesOnly(a))
		}
		return mkScat(ps...)
	case "smap":
		var cs []smapCase
		for _, c := range smapCases(s) {
			cs = append(cs, smapCase{piece: entriesOnly(c.piece), guards: c.guards})
		}
		return mkSmap(s.args[0], s.args[1], cs)
	}
	return s
}

// sizesFor are the numbers of entries at which a summary can change its mind.
func sizesFor(s *Term) ([]int, bool) {
	set := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true}
	all := true
	near := func(t *Term) {
		if t.op == "smap" {
			for _, c := range smapCases(t) {
				for _, g := range c.guards {
					walk(g, func(x *Term) bool {
						if (x.op == "int" || x.op == "lin") && x.c != nil {
							k := new(big.Int).Abs(x.c)
							if k.Cmp(big.NewInt(2000)) > 0 {
								all = false
							} else if k := k.Int64(); k > 3 {
								for d := int64(-1); d <= 3; d++ {
									set[int(k+d)] = true
								}
							}
						}
						return true
					})
				}
			}
		}
	}
	walk(s, func(x *Term) bool { near(x); return true })
	var r []int
	for n := range set {
		r = append(r, n)
	}
	sort.Ints(r)
	return r, all
}

func sizesOf(s *Term) []int {
	r, _ := sizesFor(s)
	return r
}

// entryOf names the value an entry was written for, whichever way it was handed to the writer.
func (w *World) entryOf(t *Term) *Term {
	if t.op == "iface" {
		t = t.args[0]
		if t.typ != nil && types.Identical(t.typ, types.NewPointer(w.V)) {
			return w.derefV(t, w.V)
		}
		return t
	}
	if t.op == "fn" && t.s == "res:GetObject" {
		return t.args[0]
	}
	if t.typ != nil && types.Identical(t.typ, types.NewPointer(w.V)) {
		return w.derefV(t, w.V)
	}
	return t
}

// escaped: is the text t the text x with every quote escaped? 1 yes, -1 no, 0 not known; same tells that it is
// made from x at all.
func escaped(e *Eng, st *State, t, x *Term) (r int, same bool) {
	if t == mkFn("replaceall", tString, x, mkStr(`"`), mkStr(`\"`)) {
		return 1, true
	}
	if t == replaceAll(x, mkStr(`"`), mkStr(`\"`)) {
		return 1, true
	}
	if y := replaceAll(x, mkStr(`\`), mkStr(`\\`)); t == replaceAll(y, mkStr(`"`), mkStr(`\"`)) {
		return 1, true
	}
	if t == x {
		if st.facts.eval(e.containsCond(st, x, mkStr(`"`))) == -1 {
			return 1, true
		}
		return -1, true
	}
	same = t.contains(x)
	// a text made of x by operations that are understood
	plain := true
	walk(t, func(y *Term) bool {
		if y == x {
			return false
		}
		switch {
		case y.op == "str", y.op == "cat", y.op == "substr", y.op == "int", y.op == "lin", y.op == "len":
		case y.op == "fn" && (y.s == "replaceall" || y.s == "replace" && len(y.args) == 4 && y.args[3].op == "int" && y.args[3].c.Sign() >= 0 || y.s == "trimspace" || y.s == "tolower" || y.s == "toupper"):
		default:
			plain = false
		}
		return plain
	})
	if plain {
		return -1, same
	}
	return 0, same
}

// keyTok matches the text of a key.
type entryWant struct {
	key *Term // nil in arrays
	val *Term // as entryOf
	ptr *Term // pointer to the value, when the entry may be nil
}

// listText judges the text written for an object or an array.
func (w *World) listText(r *Report, rq *Report, e *Eng, b *box, st *State, s, size *Term, open, shut string, want func(i int) entryWant, item, where string) {
	j := w.judge(r, ruleWriteList, item, where, st)
	jq := j
	jq.r = nil
	if rq != nil {
		jq = w.judge(rq, ruleQuote, item+", keys", where, st)
	}
	if s == nil {
		j.und("the builder is not only appended to")
		return
	}
	closed := false
	walk(openText(s), func(x *Term) bool {
		closed = closed || x.op == "fn" && (x.s == "join" || x.s == "text")
		return !closed && x.op != "guard"
	})
	if closed {
		j.und("%s", short(s))
		return
	}
	if !sized(st, entriesOnly(openText(s)), size, j) {
		return
	}
	sizes, all := sizesFor(openText(s))
	if !all {
		j.und("numbers of entries above 2000")
	}
	for _, n := range sizes {
		alts, ok := tokens(st, b, s, size, n)
		if !ok {
			j.und("%s", short(s))
			return
		}
		for _, ts := range alts {
			if !w.oneList(e, b, st, ts, n, open, shut, want, j, jq) {
				return
			}
		}
	}
}

func (w *World) oneList(e *Eng, b *box, st *State, ts []tok, n int, open, shut string, want func(i int) entryWant, j, jq judge) bool {
	at := 0
	// a constant may be cut anywhere: take characters from the front
	lit := func(s string, what string) bool {
		for s != "" {
			if at >= len(ts) {
				j.bad("for %d entries, %s is missing", n, what)
				return false
			}
			if ts[at].t != nil {
				if understood(ts[at].t) {
					j.bad("for %d entries, %s instead of %s", n, short(ts[at].t), what)
				} else {
					j.und("%s", short(ts[at].t))
				}
				return false
			}
			c := ts[at].s
			k := len(s)
			if len(c) < k {
				k = len(c)
			}
			if c[:k] != s[:k] {
				j.bad("for %d entries, %q instead of %s", n, c, what)
				return false
			}
			s = s[k:]
			if k == len(c) {
				at++
			} else {
				ts[at].s = c[k:]
			}
		}
		return true
	}
	if !lit(open, "the opening "+open) {
		return false
	}
	for i := 0; i < n; i++ {
		x := want(i)
		if i > 0 && !lit(",", fmt.Sprintf("the separator before entry %d", i)) {
			return false
		}
		if x.key != nil {
			if !lit(`"`, fmt.Sprintf("the quote before key %d", i)) {
				return false
			}
			if at >= len(ts) || ts[at].t == nil {
				j.bad("for %d entries, key %d is missing", n, i)
				return false
			}
			t := ts[at].t
			esc, same := escaped(e, st, t, x.key)
			if !same {
				if understood(t) {
					j.bad("for %d entries, key %d is written as %s", n, i, short(t))
				} else {
					j.und("%s", short(t))
				}
				return false
			}
			switch esc {
			case -1:
				jq.bad("a key is written as %s", short(t))
			case 0:
				jq.und("%s", short(t))
			case 1:
				if !slashSafe(t) && jq.r != nil {
					jq.r.add(ruleSlash, "keys", "violation", "a backslash is written as it is, so a key that ends in one takes the closing quote away", jq.where)
				}
			}
			at++
			if !lit(`":`, fmt.Sprintf("the quote and colon after key %d", i)) {
				return false
			}
		}
		if at < len(ts) && ts[at].t != nil {
			t := ts[at].t
			if t.op == "fn" && t.s == "ser" {
				if got := w.entryOf(t.args[0]); got != x.val && w.canon(got) != w.canon(x.val) {
					if !understood(got) {
						j.und("%s", short(got))
					} else if h := w.handleType(got.typ); h != nil && h != w.V && got.contains(x.val) {
						j.und("%s", short(got))
					} else {
						j.bad("for %d entries, entry %d is written as %s", n, i, short(got))
					}
					return false
				}
				at++
				continue
			}
			j.und("%s", short(t))
			return false
		}
		// a null entry may be written directly
		if at < len(ts) && strings.HasPrefix(ts[at].s, "null") && x.ptr != nil {
			s := st.clone()
			for _, g := range ts[at].guards {
				s.facts.assume(g, true)
			}
			if !s.facts.isNil(x.ptr) && w.nullValue(s, x.val) != 1 {
				j.bad("for %d entries, entry %d is written as null although it need not be", n, i)
				return false
			}
			if !lit("null", "null") {
				return false
			}
			continue
		}
		j.bad("for %d entries, the value of entry %d is missing", n, i)
		return false
	}
	if !lit(shut, "the closing "+shut) {
		return false
	}
	if at < len(ts) {
		if ts[at].t == nil || understood(ts[at].t) {
			j.bad("for %d entries, something follows the closing %s", n, shut)
		} else {
			j.und("%s", short(ts[at].t))
		}
		return false
	}
	return true
}

// writtenLists runs the operations that write an object or an array.
func (w *World) writtenLists(r, rq *Report) {
	pv := types.NewPointer(w.V)
	w.boxRuns(r, ruleWriteList, func(op field) bool {
		return op.sig.Params().Len() == 1 && isBuilderT(op.sig.Params().At(0).Type()) && returnsErrors(op)
	}, func(e *Eng, x *boxRun) {
		b := x.b
		where := w.boxWhere(b, x.op)
		r.ok(ruleWriteList, x.item)
		for _, o := range x.outs {
			if o.kind != "ret" {
				w.abnormal(r, ruleWriteList, x.item, o)
				continue
			}
			_, errs := retErrs(x.op.sig, o)
			switch errStatus(o.st, errs) {
			case "some":
				continue
			case "none":
			default:
				r.add(ruleWriteList, x.item, "undecided", "errors "+short(errs), where)
				continue
			}
			s := appendedText(o.st, x.args[0])
			if b.n == w.M {
				w.listText(r, rq, e, b, o.st, s, mkLen(b.K0), "{", "}", func(i int) entryWant {
					k := mkElem(b.K0, mkInt(int64(i)), tString)
					p := w.valuePtr(b, k)
					return entryWant{key: k, val: w.derefV(p, w.V), ptr: p}
				}, x.item, where)
			} else {
				w.listText(r, nil, e, b, o.st, s, mkLen(b.V0), "[", "]", func(i int) entryWant {
					p := mkElem(b.V0, mkInt(int64(i)), pv)
					return entryWant{val: w.derefV(p, w.V), ptr: p}
				}, x.item, where)
			}
		}
	})
}

// textOf is the text a content stands for; nil when it is not written as text.
func (w *World) textOf(e *Eng, st *State, c *Content, v, x *Term) *Term {
	switch c.kind {
	case "string":
		return x
	case "error":
		if x.typ != nil && types.Identical(x.typ, errType) {
			return e.errText(st, x)
		}
		if v.op == "iface" && !isErrorT(v.typ) {
			// a struct whose pointer is an error: its formatted text
			return mkFn("sprint%s", tString, v)
		}
		return e.errText(st, v)
	}
	return nil
}

// quoted judges the text written for one text.
func (w *World) quoted(r *Report, e *Eng, st *State, s, x *Term, item, where string) {
	j := w.judge(r, ruleQuote, item, where, st)
	if s == nil {
		j.und("the builder is not only appended to")
		return
	}
	var b *box
	alts, ok := tokens(st, b, s, mkSym("none", tInt), 0)
	if !ok || len(alts) != 1 {
		j.und("%s", short(s))
		return
	}
	ts := alts[0]
	known := true
	for _, t := range ts {
		if t.t != nil && !understood(t.t) {
			known = false
		}
	}
	say := func(f string, a ...interface{}) {
		if known {
			j.bad(f, a...)
		} else {
			j.und(f, a...)
		}
	}
	if len(ts) == 0 {
		say("is not written")
		return
	}
	if ts[0].t == nil && ts[0].s == "null" && len(ts) == 1 {
		say("is written as null")
		return
	}
	if ts[0].t != nil || !strings.HasPrefix(ts[0].s, `"`) {
		say("does not start with a quote: %s", short(s))
		return
	}
	if l := ts[len(ts)-1]; l.t != nil || !strings.HasSuffix(l.s, `"`) {
		say("does not end with a quote: %s", short(s))
		return
	}
	if x == nil {
		// some text of the library's choice: it must not contain a quote
		for i, t := range ts {
			if t.t == nil {
				in := t.s
				if i == 0 {
					in = in[1:]
				}
				if i == len(ts)-1 && (in != "" || i > 0) {
					in = strings.TrimSuffix(in, `"`)
				}
				if strings.Contains(strings.ReplaceAll(in, `\"`, ""), `"`) {
					j.bad("writes a quote inside the text: %q", t.s)
				}
				continue
			}
			if t.t.op == "fn" {
				switch t.t.s {
				case "timeformat", "dec":
					continue
				case "replaceall":
					if t.t.args[1] == mkStr(`"`) && t.t.args[2] == mkStr(`\"`) {
						continue
					}
				}
			}
			j.und("%s", short(t.t))
		}
		return
	}
	if len(ts) == 1 {
		say("is written as %s", ts[0].s)
		return
	}
	if len(ts) != 3 || ts[0].s != `"` || ts[2].s != `"` || ts[1].t == nil {
		for _, t := range ts {
			if t.t != nil {
				if q, _ := escaped(e, st, t.t, x); q == 0 {
					known = false
				}
			}
		}
		say("is written as %s", short(s))
		return
	}
	switch q, _ := escaped(e, st, ts[1].t, x); q {
	case 1:
		if !slashSafe(ts[1].t) {
			r.add(ruleSlash, "text content", "violation", "a backslash is written as it is, so a text that ends in one takes the closing quote away", where)
		}
	case -1:
		j.bad("is written as %s", short(ts[1].t))
	case 0:
		j.und("%s", short(ts[1].t))
	}
}

// slashes: every text that is written must also have its backslashes escaped, or a backslash before the closing
// quote takes it away.
func slashSafe(t *Term) bool {
	ok := false
	walk(t, func(x *Term) bool {
		if x.op == "fn" && x.s == "replaceall" && x.args[1] == mkStr(`\`) && x.args[2] == mkStr(`\\`) {
			ok = true
		}
		return !ok
	})
	return ok
}

func (w *World) serRuns(r *Report, f func(e *Eng, x *funcRun, o outcome, s *Term)) {
	e := w.engine()
	w.convertRuns(r, e, w.serialisers(), func(x *funcRun) {
		for _, o := range x.outs {
			if o.kind != "ret" {
				continue
			}
			f(e, x, o, appendedText(o.st, x.b))
		}
	})
}

// scalarText judges the text of null, a boolean or a number.
func (w *World) scalarText(r *Report, e *Eng, x *funcRun, o outcome, s *Term, where string) {
	c := x.c
	st := o.st
	item := x.item()
	j := w.judge(r, ruleScalar, item, where, st)
	errs := o.vals[len(o.vals)-1]
	es := errStatus(st, errs)
	if c.null() {
		r.ok(ruleScalar, item)
		if es == "none" && s != openText(mkSeq(mkStr("null"))) && s != mkSeq(mkStr("null")) {
			w.notScalar(j, s, mkStr("null"))
		}
		if es == "some" {
			j.bad("null is refused")
		}
		return
	}
	v := x.x
	switch c.kind {
	case "bool", "int", "uint", "float":
	default:
		return
	}
	r.ok(ruleScalar, item)
	if es == "some" {
		if c.kind == "float" {
			if !notFinite(st) {
				j.bad("a finite number is refused")
			}
			return
		}
		j.bad("is refused")
		return
	}
	if es != "none" {
		j.und("errors %s", short(errs))
		return
	}
	if s == nil {
		j.und("the builder is not only appended to")
		return
	}
	t := textOfSeq(openText(s))
	switch c.kind {
	case "bool":
		switch st.facts.eval(v) {
		case 1:
			if t != mkStr("true") {
				w.notScalar(j, s, mkStr("true"))
			}
		case -1:
			if t != mkStr("false") {
				w.notScalar(j, s, mkStr("false"))
			}
		default:
			if t != mkFn("booltext", tString, v) {
				w.notScalar(j, s, mkFn("booltext", tString, v))
			}
		}
	case "int", "uint":
		if want := decText(v); t != want {
			if t.op == "str" {
				// a constant for a number known on this path
				if k, ok := v.constInt(); ok && t.s == k.String() {
					return
				}
				if lo, hi := st.facts.rng(v); lo != nil && hi != nil && lo.Cmp(hi) == 0 && t.s == lo.String() {
					return
				}
			}
			w.notScalar(j, s, want)
		}
	case "float":
		wide := v
		if c.typ != nil && is32(c.typ) {
			wide = convFloat(v, types.Typ[types.Float32], types.Typ[types.Float64])
		}
		switch missing, known := finite(st, v, wide); {
		case missing != "" && known:
			j.bad("%s, which the format cannot express, is written as %s", missing, short(t))
			return
		case missing != "":
			j.und("whether %s is refused", missing)
		}
		w.floatText(j, st, t, v, c)
	}
}

func is32(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

// finite: which of NaN and the infinities the path has not excluded, and whether the path asked nothing else about
// the number that could have excluded it.
func finite(st *State, v, wide *Term) (missing string, known bool) {
	out := func(name string) bool {
		return st.facts.eval(mkFn(name, tBool, v)) == -1 || st.facts.eval(mkFn(name, tBool, wide)) == -1
	}
	for _, k := range [][2]string{{"isnan", "NaN"}, {"isposinf", "+Inf"}, {"isneginf", "-Inf"}} {
		if !out(k[0]) {
			missing = k[1]
			break
		}
	}
	if missing == "" {
		return "", true
	}
	known = true
	for t := range st.facts.truth {
		walk(t, func(x *Term) bool {
			if x.op == "fn" {
				switch x.s {
				case "isnan", "isposinf", "isneginf", "isnil":
					return false
				case "count":
					if len(x.args) == 2 && x.args[1].op == "str" && (x.args[1].s == "." || x.args[1].s == "e" || x.args[1].s == "E") {
						return false
					}
				}
			}
			if x == v || x == wide {
				known = false
			}
			return known
		})
	}
	return
}

func (w *World) notScalar(j judge, s, want *Term) {
	if s == nil {
		j.und("the builder is not only appended to")
		return
	}
	known := understood(s)
	walk(s, func(x *Term) bool {
		if x.op == "fn" {
			switch x.s {
			case "formatint":
				if x.args[1].op != "int" || x.args[1].c.Int64() == 10 {
					known = false
				}
			case "dec", "booltext", "formatfloat", "ser", "tofloat64", "tofloat32", "text", "replaceall":
			default:
				if !strings.HasPrefix(x.s, "to") && !strings.HasPrefix(x.s, "is") {
					known = false
				}
			}
		}
		return known
	})
	if known {
		j.bad("is written as %s, not %s", short(textOfSeq(openText(s))), short(want))
	} else {
		j.und("%s against %s", short(s), short(want))
	}
}

// floatText: the shortest decimal text of the number, with a decimal point.
func (w *World) floatText(j judge, st *State, t, v *Term, c *Content) {
	bits := 64
	if c.typ != nil && is32(c.typ) {
		bits = 32
	}
	// finite must be established
	wide := v
	if bits == 32 {
		wide = convFloat(v, types.Typ[types.Float32], types.Typ[types.Float64])
	}
	var core *Term
	tail := ""
	core = t
	if t.op == "cat" && len(t.args) == 2 && t.args[1].op == "str" {
		core, tail = t.args[0], t.args[1].s
	}
	if core.op != "fn" || core.s != "formatfloat" || len(core.args) != 4 {
		if understood(t) && (t.op == "str" || t.op == "fn" && (t.s == "dec" || strings.HasPrefix(t.s, "sprint%"))) {
			j.bad("is written as %s", short(t))
		} else {
			j.und("%s", short(t))
		}
		return
	}
	if core.args[0] != wide && core.args[0] != v {
		if understood(core.args[0]) {
			j.bad("writes the digits of %s", short(core.args[0]))
		} else {
			j.und("%s", short(core.args[0]))
		}
		return
	}
	f, ok1 := core.args[1].smallInt()
	prec, ok2 := core.args[2].smallInt()
	bs, ok3 := core.args[3].smallInt()
	if !ok1 || !ok2 || !ok3 {
		j.und("%s", short(core))
		return
	}
	if prec >= 0 && !(bits == 64 && prec >= 17 && f != 'f') && !(bits == 32 && prec >= 9 && f != 'f') {
		j.bad("is written with %d digits only", prec)
		return
	}
	if bits == 64 && bs != 64 {
		j.bad("a float64 is written with the digits of a float32")
		return
	}
	has := func(sub string) int { return st.facts.eval(mkNot(mkLt0(tAddC(mkCount(core, mkStr(sub)), -1)))) }
	point := has(".")
	switch f {
	case 'f':
		switch tail {
		case "":
			if point == 1 {
				return
			}
			if point == 0 && prec > 0 {
				return
			}
			j.bad("a whole number is written without a decimal point, and reads back as an integer")
		case ".0":
			if point == 1 {
				j.bad("a number with a decimal point gets another one")
			} else if point == 0 {
				j.bad("a number that may have a decimal point gets another one")
			}
		default:
			j.bad("is written with %q appended", tail)
		}
	case 'e', 'E', 'g', 'G':
		if tail == "" && point == 1 {
			return
		}
		if tail == "" {
			j.bad("may be written without a decimal point (as in 1e+06), which does not read back as a float")
		} else {
			j.bad("a text with an exponent is written with %q appended", tail)
		}
	default:
		j.bad("is written in format %q", rune(f))
	}
}

func init() {
	define(&propDef{id: "C11", run: func(w *World, r *Report) {
		w.writtenLists(r, nil)
		w.serRuns(r, func(e *Eng, x *funcRun, o outcome, s *Term) {
			if x.c.null() || x.c.kind != "strings" && x.c.kind != "errors" {
				return
			}
			fn := w.fn(x.fn)
			where := w.where(fn.Pos(), fn)
			r.ok(ruleWriteList, x.item())
			switch es := errStatus(o.st, o.vals[len(o.vals)-1]); es {
			case "some":
				return
			case "none":
			default:
				r.add(ruleWriteList, x.item(), "undecided", "errors", where)
				return
			}
			var b *box
			w.listText(r, nil, e, b, o.st, s, mkLen(x.x), "[", "]", func(i int) entryWant {
				var et types.Type = tString
				if x.c.kind == "errors" {
					et = errType
				}
				return entryWant{val: mkElem(x.x, mkInt(int64(i)), et)}
			}, x.item(), where)
		})
	}})
	define(&propDef{id: "C12", run: func(w *World, r *Report) {
		quiet := newReport("C12", r.tier)
		w.writtenLists(quiet, r)
		r.ok(ruleQuote, "Map.ToJSONString, keys")
		r.ok(ruleSlash, "keys")
		r.ok(ruleSlash, "text content")
		w.serRuns(r, func(e *Eng, x *funcRun, o outcome, s *Term) {
			if x.c.null() {
				return
			}
			fn := w.fn(x.fn)
			where := w.where(fn.Pos(), fn)
			if errStatus(o.st, o.vals[len(o.vals)-1]) != "none" {
				return
			}
			switch x.c.kind {
			case "string", "error":
				v := x.v
				r.ok(ruleQuote, x.item())
				if x.x != nil && x.x.typ != nil && types.Identical(x.x.typ, errType) && o.st.facts.isNil(x.x) {
					return
				}
				w.quoted(r, e, o.st, s, w.textOf(e, o.st, x.c, v, x.x), x.item(), where)
			case "time", "func", "rawmap":
				r.ok(ruleQuote, x.item())
				w.quoted(r, e, o.st, s, nil, x.item(), where)
			}
		})
	}})
	define(&propDef{id: "C20", run: func(w *World, r *Report) {
		w.serRuns(r, func(e *Eng, x *funcRun, o outcome, s *Term) {
			fn := w.fn(x.fn)
			w.scalarText(r, e, x, o, s, w.where(fn.Pos(), fn))
		})
	}})
}
