package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions outside the repository. Everything here is either an exact description on symbolic
// arguments, or an uninterpreted pure function of its arguments.

const commonPath = "github.com/matehaxor03/holistic_common/common"

var (
	tString  = types.Typ[types.String]
	tBool    = types.Typ[types.Bool]
	tInt     = types.Typ[types.Int]
	errType  = types.Universe.Lookup("error").Type()
	errIface = errType.Underlying().(*types.Interface)
	anyType  = types.NewInterfaceType(nil, nil)
	errPtr   types.Type // *errors.errorString
	timeType types.Type // time.Time
)

func isErrorT(t types.Type) bool { return types.Implements(t, errIface) }

// newError makes a fresh non-nil error carrying text.
func (e *Eng) newError(st *State, site string, text *Term) *Term {
	elem := errPtr.(*types.Pointer).Elem()
	p := st.alloc(site+"!err", elem, mkStruct(elem, text))
	return mkIface(errPtr, p)
}

// errText is the message of an error value.
func (e *Eng) errText(st *State, v *Term) *Term {
	if v.op == "iface" && types.Identical(v.typ, errPtr) && v.args[0].op == "addr" && v.args[0].args[0].op == "obj" {
		c := st.load(v.args[0], nil)
		if c.op == "struct" {
			return c.args[0]
		}
	}
	if v.op == "iface" {
		return mkFn("errtext", tString, v)
	}
	return mkFn("errtext", tString, v)
}

var nilWords = map[string]bool{"<nil>": true, "nil": true, "map[]": true, "&map[value:<nil>]": true, "%!s(*json.Value=<nil>)": true}

func nilWord(s *Term) *Term {
	if s.op == "str" {
		if nilWords[s.s] {
			return tTrue
		}
		return tFalse
	}
	return mkFn("nilword", tBool, s)
}

// isNilCond is the condition under which common.IsNil answers yes for an interface value.
func (e *Eng) isNilCond(st *State, v *Term) *Term {
	if v.op == "nil" {
		return tTrue
	}
	if v.op != "iface" {
		if st.facts.isNil(v) {
			return tTrue
		}
		return mkFn("isnil", tBool, v)
	}
	x := v.args[0]
	if isErrorT(v.typ) {
		c := nilWord(e.errText(st, v))
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			if st.facts.eval(mkEq(x, tNil)) == 1 {
				return tTrue
			}
			if st.facts.eval(mkEq(x, tNil)) == 0 {
				return mkNot(mkAnd(mkNot(mkEq(x, tNil)), mkNot(c)))
			}
		}
		return c
	}
	switch u := v.typ.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Chan:
		return mkEq(x, tNil)
	case *types.Map:
		if x.op == "nil" {
			return tTrue
		}
		return mkEq0(mapLen(st.load(x, nil)))
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return nilWord(x)
		}
	case *types.Struct:
		if n, ok := v.typ.(*types.Named); ok && n.Obj().Name() == "ExitError" {
			return mkFn("nilword", tBool, mkFn("sprint", tString, v))
		}
	}
	return tFalse
}

func mkAnd(cs ...*Term) *Term {
	var k []*Term
	for _, c := range cs {
		if c.op == "and" {
			k = append(k, c.args...)
			continue
		}
		if c == tFalse {
			return tFalse
		}
		if c != tTrue {
			k = append(k, c)
		}
	}
	switch len(k) {
	case 0:
		return tTrue
	case 1:
		return k[0]
	}
	return mk("and", "", nil, nil, nil, nil, k...)
}

// mkAndUnder drops the conjuncts that already hold.
func mkAndUnder(f *Facts, cs ...*Term) *Term {
	var k []*Term
	for _, c := range cs {
		switch f.eval(c) {
		case 1:
			continue
		case -1:
			return tFalse
		}
		k = append(k, c)
	}
	return mkAnd(k...)
}

func mkOr(cs ...*Term) *Term {
	var k []*Term
	for _, c := range cs {
		k = append(k, mkNot(c))
	}
	return mkNot(mkAnd(k...))
}

// forkOn calls f on the state with c assumed true and false.
func (e *Eng) forkOn(st *State, c *Term, f func(st *State, v bool) []outcome) []outcome {
	switch st.facts.eval(c) {
	case 1:
		return f(st, true)
	case -1:
		return f(st, false)
	}
	s2 := st.clone()
	var r []outcome
	if e.assume(st, c, true) {
		r = f(st, true)
	}
	if e.assume(s2, c, false) {
		r = append(r, f(s2, false)...)
	}
	return r
}

func (e *Eng) hasPrefix(st *State, s, p *Term) *Term {
	if p.op == "str" {
		if s.op == "str" {
			return mkBool(strings.HasPrefix(s.s, p.s))
		}
		if len(p.s) <= 4 {
			cs := []*Term{mkNot(mkLt0(tAddC(mkLen(s), -int64(len(p.s)))))}
			for i := 0; i < len(p.s); i++ {
				cs = append(cs, mkEq0(tAddC(mkByteAt(s, mkInt(int64(i))), -int64(p.s[i]))))
			}
			return mkAndUnder(st.facts, cs...)
		}
	}
	return mkFn("hasprefix", tBool, s, p)
}

func (e *Eng) hasSuffix(st *State, s, p *Term) *Term {
	if p.op == "str" {
		if s.op == "str" {
			return mkBool(strings.HasSuffix(s.s, p.s))
		}
		if len(p.s) <= 4 {
			cs := []*Term{mkNot(mkLt0(tAddC(mkLen(s), -int64(len(p.s)))))}
			for i := 0; i < len(p.s); i++ {
				cs = append(cs, mkEq0(tAddC(mkByteAt(s, tAddC(mkLen(s), int64(i-len(p.s)))), -int64(p.s[i]))))
			}
			return mkAndUnder(st.facts, cs...)
		}
	}
	return mkFn("hassuffix", tBool, s, p)
}

func mkCount(s, sub *Term) *Term {
	if s.op == "str" && sub.op == "str" {
		return mkInt(int64(strings.Count(s.s, sub.s)))
	}
	return mkFn("count", tInt, s, sub)
}

func (e *Eng) containsCond(st *State, s, sub *Term) *Term {
	if s.op == "str" && sub.op == "str" {
		return mkBool(strings.Contains(s.s, sub.s))
	}
	if sub.op == "str" && sub.s == "" {
		return tTrue
	}
	if s.op == "str" && len(s.s) <= 16 {
		if n, ok := mkLen(sub).smallInt(); ok && n == 1 {
			var cs []*Term
			for i := 0; i < len(s.s); i++ {
				cs = append(cs, mkEq0(tAddC(mkByteAt(sub, mkInt(0)), -int64(s.s[i]))))
			}
			return mkOr(cs...)
		}
	}
	if sub.op == "str" && len(sub.s) == 1 {
		if c, ok := firstByte(st, s); ok && c == sub.s[0] {
			return tTrue
		}
		if c, ok := lastByte(st, s); ok && c == sub.s[0] {
			return tTrue
		}
	}
	return mkNot(mkLt0(tAddC(mkCount(s, sub), -1)))
}

// member looks for one byte, given as a text of one byte or as a rune, in a short constant text: the paths are told
// apart by the byte found.
func (e *Eng) member(st *State, in, x *Term, index bool) ([]outcome, bool) {
	if in.op != "str" || len(in.s) > 24 || x.op == "str" {
		return nil, false
	}
	for i := 0; i < len(in.s); i++ {
		if in.s[i] >= 128 {
			return nil, false
		}
	}
	if x.isInt() {
		if _, ok := x.constInt(); ok {
			return nil, false
		}
	} else {
		if n, ok := mkLen(x).smallInt(); !ok || n != 1 {
			return nil, false
		}
		x = mkByteAt(x, mkInt(0))
	}
	var r []outcome
	found := func(i int) *Term {
		if index {
			return mkInt(int64(i))
		}
		return mkBool(i >= 0)
	}
	rest, ok := st.clone(), true
	for i := 0; i < len(in.s); i++ {
		if strings.IndexByte(in.s, in.s[i]) < i {
			continue
		}
		c := mkEq0(tAddC(x, -int64(in.s[i])))
		if s := st.clone(); e.assume(s, c, true) {
			r = append(r, ret(s, found(i)))
		}
		ok = ok && e.assume(rest, c, false)
	}
	if ok {
		r = append(r, ret(rest, found(-1)))
	}
	return r, true
}

// firstByte and lastByte are the ends of a text that is not empty, where they are known.
func firstByte(st *State, s *Term) (byte, bool) { return endByte(st, s, mkInt(0)) }

func lastByte(st *State, s *Term) (byte, bool) { return endByte(st, s, tAddC(mkLen(s), -1)) }

func endByte(st *State, s, i *Term) (byte, bool) {
	if lo, _ := st.facts.rng(mkLen(s)); lo == nil || lo.Sign() <= 0 {
		return 0, false
	}
	lo, hi := st.facts.rng(mkByteAt(s, i))
	if lo == nil || hi == nil || lo.Cmp(hi) != 0 || !lo.IsInt64() || lo.Int64() < 0 || lo.Int64() > 255 {
		return 0, false
	}
	return byte(lo.Int64()), true
}

func isBlank(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }

// trimSpace keeps what is known of the ends of a text.
func trimSpace(st *State, s *Term) *Term {
	f, okF := firstByte(st, s)
	l, okL := lastByte(st, s)
	okF = okF && f < 0x80 && !isBlank(f)
	okL = okL && l < 0x80 && !isBlank(l)
	if okF && okL {
		return s
	}
	t := mkFn("trimspace", tString, s)
	st.facts.addBound(tSub(mkLen(s), mkLen(t)), new(big.Int), nil)
	if okF || okL {
		st.facts.addBound(mkLen(t), big.NewInt(1), nil)
	}
	if okF {
		c := big.NewInt(int64(f))
		st.facts.addBound(mkByteAt(t, mkInt(0)), c, c)
	}
	if okL {
		c := big.NewInt(int64(l))
		st.facts.addBound(mkByteAt(t, tAddC(mkLen(t), -1)), c, c)
	}
	return t
}

func (e *Eng) replaceAll(st *State, s, old, nw *Term) *Term {
	t := replaceAll(s, old, nw)
	if t.op != "fn" || old.op != "str" || old.s == "" || nw.op != "str" {
		return t
	}
	f, okF := firstByte(st, s)
	l, okL := lastByte(st, s)
	okF = okF && f != old.s[0]
	okL = okL && (l != old.s[len(old.s)-1] || nw.s != "" && nw.s[len(nw.s)-1] == l)
	if okF || okL {
		st.facts.addBound(mkLen(t), big.NewInt(1), nil)
	}
	if okF {
		c := big.NewInt(int64(f))
		st.facts.addBound(mkByteAt(t, mkInt(0)), c, c)
		if lo, _ := st.facts.rng(mkLen(s)); lo != nil && lo.Cmp(big.NewInt(2)) >= 0 && (nw.s != "" || okL) {
			st.facts.addBound(mkLen(t), big.NewInt(2), nil)
		}
	}
	if okL {
		c := big.NewInt(int64(l))
		st.facts.addBound(mkByteAt(t, tAddC(mkLen(t), -1)), c, c)
	}
	return t
}

func replaceAll(s, old, nw *Term) *Term {
	if s.op == "str" && old.op == "str" && nw.op == "str" {
		return mkStr(strings.ReplaceAll(s.s, old.s, nw.s))
	}
	if old == nw {
		return s
	}
	return mkFn("replaceall", tString, s, old, nw)
}

// forgeText is the text of a value printed with verb.
func (e *Eng) verbText(st *State, verb string, v *Term) (*Term, bool) {
	x := v
	var t types.Type
	if v.op == "iface" {
		x, t = v.args[0], v.typ
	}
	switch verb {
	case "s", "v":
		if t != nil && isErrorT(t) {
			return e.errText(st, v), true
		}
		if t != nil && isStringType(t) {
			return x, true
		}
		if t != nil && isIntType(t) && verb == "v" {
			return decText(x), true
		}
		if t != nil && isBoolType(t) && verb == "v" {
			return mkFn("booltext", tString, x), true
		}
		if t == nil && v.typ != nil && types.Identical(v.typ, errType) {
			return e.errText(st, v), true
		}
	case "d":
		if t != nil && isIntType(t) {
			return decText(x), true
		}
	case "t":
		if t != nil && isBoolType(t) {
			return mkFn("booltext", tString, x), true
		}
	case "T":
		if t != nil {
			return mkStr(typeString(t)), true
		}
	}
	return mkFn("sprint%"+verb, tString, v), false
}

func decText(x *Term) *Term {
	if c, ok := x.constInt(); ok {
		return mkStr(c.String())
	}
	return mkFn("dec", tString, x)
}

// sprintf renders a constant format.
func (e *Eng) sprintf(st *State, format *Term, args *Term) *Term {
	if format.op != "str" || args.op != "seq" {
		return mkFn("sprintf", tString, format, args)
	}
	f := format.s
	var parts []*Term
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, mkStr(f[i:]))
			break
		}
		parts = append(parts, mkStr(f[i:i+j]))
		i += j + 1
		s := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			parts = append(parts, mkStr("%!(NOVERB)"))
			break
		}
		flags, verb := f[s:i], string(f[i])
		i++
		if verb == "%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k >= len(args.args) {
			parts = append(parts, mkStr("%!"+verb+"(MISSING)"))
			continue
		}
		a := args.args[k]
		k++
		if flags == "" {
			t, _ := e.verbText(st, verb, a)
			parts = append(parts, t)
		} else {
			parts = append(parts, mkFn("sprint%"+flags+verb, tString, a))
		}
	}
	return mkCat(parts...)
}

func isBuilderT(t types.Type) bool {
	s := t.String()
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

func (e *Eng) builderWrite(st *State, p, text *Term, pos token.Pos) {
	if e.onWrite != nil {
		e.onWrite(st, p, text, pos, e.cur)
	}
	base := p
	if p.op == "addr" && len(p.args) == 1 {
		base = p.args[0]
	}
	c := st.content(base)
	if c.op == "struct" && len(c.args) > 0 { // a builder inside a zeroed struct
		c = mkSeq()
	}
	if c.op == "deref" {
		c = mkFn("before", nil, base)
	}
	st.store(p, mkScat(c, mkSeq(text)))
}

func textOfSeq(c *Term) *Term {
	if c.op == "seq" {
		return mkCat(c.args...)
	}
	if c.op == "scat" {
		var ps []*Term
		for _, a := range c.args {
			if a.op == "seq" {
				ps = append(ps, a.args...)
			} else {
				ps = append(ps, mkFn("text", tString, a))
			}
		}
		return mkCat(ps...)
	}
	return mkFn("text", tString, c)
}

// pureFn is an uninterpreted function of its arguments.
func (e *Eng) pureFn(st *State, site string, fn *ssa.Function, args []*Term) []outcome {
	sig := fn.Signature
	name := fn.String()
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = a
		if a.op == "slice" {
			as[i] = st.seqOf(a)
		}
	}
	var vs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		n := name
		if i > 0 {
			n += "#" + strconv.Itoa(i)
		}
		v := mkFn(n, sig.Results().At(i).Type(), as...)
		vs = append(vs, v)
	}
	return []outcome{ret(st, vs...)}
}

func bitsOf(t *Term) int {
	if n, ok := t.smallInt(); ok {
		if n == 0 {
			return 64
		}
		return int(n)
	}
	return 0
}

func sizedInt(bits int, unsigned bool) types.Type {
	switch bits {
	case 8:
		if unsigned {
			return types.Typ[types.Uint8]
		}
		return types.Typ[types.Int8]
	case 16:
		if unsigned {
			return types.Typ[types.Uint16]
		}
		return types.Typ[types.Int16]
	case 32:
		if unsigned {
			return types.Typ[types.Uint32]
		}
		return types.Typ[types.Int32]
	}
	if unsigned {
		return types.Typ[types.Uint64]
	}
	return types.Typ[types.Int64]
}

// parseInt: the text is an integer numeral and fits.
func (e *Eng) parseInt(st *State, site string, s *Term, bits int, unsigned bool) []outcome {
	fail := func(st *State) []outcome {
		v := st.symAt(site+"!v", sizedInt(64, unsigned))
		return []outcome{ret(st, v, e.newError(st, site, mkFn("parsefailure", tString, s)))}
	}
	lo, hi := intRange(sizedInt(bits, unsigned))
	var num *Term
	syn := tTrue
	switch {
	case s.op == "fn" && s.s == "dec":
		num = s.args[0]
	case s.op == "str":
		b, ok := new(big.Int).SetString(s.s, 10)
		if !ok || strings.Contains(s.s, "_") || unsigned && (s.s[0] == '-' || s.s[0] == '+') {
			return fail(st)
		}
		num = mkBig(b)
	default:
		num = mkFn("num", nil, s)
		syn = mkFn("isint", tBool, s)
		if unsigned {
			syn = mkFn("isuint", tBool, s)
		}
	}
	return e.forkOn(st, syn, func(st *State, ok bool) []outcome {
		if !ok {
			return fail(st)
		}
		if unsigned && syn != tTrue {
			if !e.assume(st, mkFn("isint", tBool, s), true) || !st.facts.addBound(num, new(big.Int), nil) {
				return nil
			}
		}
		return e.forkOn(st, mkLt0(tSub(num, mkBig(lo))), func(st *State, low bool) []outcome {
			if low {
				return fail(st)
			}
			return e.forkOn(st, mkLt0(tSub(mkBig(hi), num)), func(st *State, high bool) []outcome {
				if high {
					return fail(st)
				}
				return []outcome{ret(st, num, tNil)}
			})
		})
	})
}

func fullName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (e *Eng) model(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool) {
	name := fullName(fn)
	one := func(v *Term) ([]outcome, bool) { return []outcome{ret(st, v)}, true }
	seq := func(i int) *Term {
		if i >= len(args) {
			return mkSeq()
		}
		return st.seqOf(args[i])
	}
	switch name {
	case commonPath + ".IsNil":
		return one(e.isNilCond(st, args[0]))
	case commonPath + ".GetType":
		return e.forkOn(st, e.isNilCond(st, args[0]), func(st *State, v bool) []outcome {
			if v {
				return []outcome{ret(st, mkStr("nil"))}
			}
			if args[0].op == "iface" {
				return []outcome{ret(st, mkStr(typeString(args[0].typ)))}
			}
			return []outcome{ret(st, mkFn("typename", tString, args[0]))}
		}), true
	case commonPath + ".GetTime", commonPath + ".GetTimeWithDecimalPlaces":
		return e.modelGetTime(st, site, fn, args, pos), true
	case commonPath + ".GetTimeNow":
		return one(st.alloc(site, timeType, mkFn("clock", timeType)))
	case commonPath + ".GetTimeZero":
		return one(st.alloc(site, timeType, mkFn("zerotime", timeType)))
	case commonPath + ".FormatTime":
		return e.forkOn(st, mkFn("formattime.ok", tBool, args...), func(st *State, ok bool) []outcome {
			if ok {
				return []outcome{ret(st, st.alloc(site, tString, mkFn("formattime", tString, args...)), tNil)}
			}
			return []outcome{ret(st, tNil, st.newSlice(site+"!errs", errType, mkSeq(e.newError(st, site, mkStr("format"))), false))}
		}), true
	case "fmt.Sprintf":
		return one(e.sprintf(st, args[0], seq(1)))
	case "fmt.Errorf":
		return one(e.newError(st, site, e.sprintf(st, args[0], seq(1))))
	case "errors.New":
		return one(e.newError(st, site, args[0]))
	case "fmt.Sprint", "fmt.Sprintln":
		q := seq(0)
		if name == "fmt.Sprint" && q.op == "seq" && len(q.args) == 1 {
			t, _ := e.verbText(st, "v", q.args[0])
			return one(t)
		}
		return one(mkFn(name, tString, q))
	case "fmt.Fprintf", "fmt.Fprint":
		w := args[0]
		if w.op == "iface" && isBuilderT(w.typ) {
			var t *Term
			if name == "fmt.Fprintf" {
				t = e.sprintf(st, args[1], seq(2))
			} else {
				t = mkFn("fmt.Sprint", tString, seq(1))
			}
			e.builderWrite(st, w.args[0], t, pos)
			return []outcome{ret(st, mkLen(t), tNil)}, true
		}
	case "io.WriteString":
		w := args[0]
		if w.op == "iface" && isBuilderT(w.typ) {
			e.builderWrite(st, w.args[0], args[1], pos)
			return []outcome{ret(st, mkLen(args[1]), tNil)}, true
		}
	case "strings.Clone":
		return one(args[0])
	case "strings.ReplaceAll":
		return one(e.replaceAll(st, args[0], args[1], args[2]))
	case "strings.Replace":
		if n, ok := args[3].smallInt(); ok && n < 0 {
			return one(e.replaceAll(st, args[0], args[1], args[2]))
		} else if ok && n == 0 {
			return one(args[0])
		}
		return one(mkFn("replace", tString, args...))
	case "strings.TrimSpace":
		if args[0].op == "str" {
			return one(mkStr(strings.TrimSpace(args[0].s)))
		}
		return one(trimSpace(st, args[0]))
	case "strings.Contains":
		if os, ok := e.member(st, args[0], args[1], false); ok {
			return os, true
		}
		return one(e.containsCond(st, args[0], args[1]))
	case "strings.ContainsRune":
		if os, ok := e.member(st, args[0], args[1], false); ok {
			return os, true
		}
		if c, ok := args[1].smallInt(); ok {
			return one(e.containsCond(st, args[0], mkStr(string(rune(c)))))
		}
	case "strings.ContainsAny":
		if os, ok := e.member(st, args[1], args[0], false); ok {
			return os, true
		}
		if args[1].op == "str" && len(args[1].s) <= 16 {
			var cs []*Term
			for _, c := range args[1].s {
				cs = append(cs, e.containsCond(st, args[0], mkStr(string(c))))
			}
			return one(mkOr(cs...))
		}
	case "strings.Count":
		return one(mkCount(args[0], args[1]))
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
		if !strings.HasPrefix(name, "strings.Last") {
			if os, ok := e.member(st, args[0], args[1], true); ok {
				return os, true
			}
		}
		sub := args[1]
		if c, ok := sub.smallInt(); ok {
			sub = mkStr(string(rune(c)))
		}
		if sub.op != "int" && !sub.isInt() {
			return e.forkOn(st, e.containsCond(st, args[0], sub), func(st *State, ok bool) []outcome {
				if !ok {
					return []outcome{ret(st, mkInt(-1))}
				}
				i := mkFn("index", tInt, mkStr(name), args[0], sub)
				st.facts.addBound(i, new(big.Int), nil)
				st.facts.addBound(tSub(tSub(mkLen(args[0]), mkLen(sub)), i), new(big.Int), nil)
				return []outcome{ret(st, i)}
			}), true
		}
	case "strings.HasPrefix":
		return one(e.hasPrefix(st, args[0], args[1]))
	case "strings.HasSuffix":
		return one(e.hasSuffix(st, args[0], args[1]))
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.CutPrefix", "strings.CutSuffix":
		pre := strings.HasSuffix(name, "Prefix")
		cut := strings.Contains(name, ".Cut")
		c := e.hasPrefix(st, args[0], args[1])
		if !pre {
			c = e.hasSuffix(st, args[0], args[1])
		}
		return e.forkOn(st, c, func(st *State, v bool) []outcome {
			r := args[0]
			if v && pre {
				r = mkSubstr(r, mkLen(args[1]), mkLen(r))
			} else if v {
				r = mkSubstr(r, mkInt(0), tSub(mkLen(r), mkLen(args[1])))
			}
			if cut {
				return []outcome{ret(st, r, mkBool(v))}
			}
			return []outcome{ret(st, r)}
		}), true
	case "strings.Join":
		q := seq(0)
		if q.op == "seq" {
			var ps []*Term
			for i, a := range q.args {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, a)
			}
			return one(mkCat(ps...))
		}
		return one(mkFn("join", tString, q, args[1]))
	case "strings.Trim":
		return one(mkFn("trim", tString, args...))
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		e.builderWrite(st, args[0], args[1], pos)
		return []outcome{ret(st, mkLen(args[1]), tNil)}, true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		e.builderWrite(st, args[0], byteStr(args[1]), pos)
		return []outcome{ret(st, tNil)}, true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		t := runeString(st, args[1])
		e.builderWrite(st, args[0], t, pos)
		return []outcome{ret(st, mkLen(t), tNil)}, true
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		q := seq(1)
		t := mkFn("text", tString, q)
		if q.op == "fn" && q.s == "bytes" {
			t = q.args[0]
		} else if q.op == "seq" {
			var ps []*Term
			for _, a := range q.args {
				ps = append(ps, byteStr(a))
			}
			t = mkCat(ps...)
		}
		e.builderWrite(st, args[0], t, pos)
		return []outcome{ret(st, mkLen(t), tNil)}, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(textOfSeq(st.load(args[0], nil)))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(mkLen(textOfSeq(st.load(args[0], nil))))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return []outcome{ret(st)}, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if e.onWrite != nil {
			e.onWrite(st, args[0], nil, pos, e.cur)
		}
		st.store(args[0], mkSeq())
		return []outcome{ret(st)}, true
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := args[1].smallInt(); ok && b == 10 {
			return one(decText(args[0]))
		}
		return one(mkFn("formatint", tString, args...))
	case "strconv.Itoa":
		return one(decText(args[0]))
	case "strconv.FormatBool":
		return e.forkOn(st, args[0], func(st *State, v bool) []outcome {
			return []outcome{ret(st, mkStr(strconv.FormatBool(v)))}
		}), true
	case "strconv.FormatFloat":
		return one(mkFn("formatfloat", tString, args...))
	case "strconv.Quote":
		return one(mkFn("quote", tString, args...))
	case "strconv.ParseInt", "strconv.ParseUint":
		bits := bitsOf(args[2])
		if b, ok := args[1].smallInt(); ok && b == 10 && bits > 0 {
			return e.parseInt(st, site, args[0], bits, name == "strconv.ParseUint"), true
		}
		c := mkFn(name+".ok", tBool, args...)
		return e.forkOn(st, c, func(st *State, ok bool) []outcome {
			v := mkFn(name, fn.Signature.Results().At(0).Type(), args...)
			if ok {
				return []outcome{ret(st, v, tNil)}
			}
			return []outcome{ret(st, v, e.newError(st, site, mkFn("parsefailure", tString, args[0])))}
		}), true
	case "strconv.Atoi":
		return e.parseInt(st, site, args[0], 64, false), true
	case "strconv.ParseFloat":
		c := mkFn("parsefloat.ok", tBool, args[0], args[1])
		if printedFloat(args[0], bitsOf(args[1])) {
			c = tTrue
		}
		return e.forkOn(st, c, func(st *State, ok bool) []outcome {
			v := mkFn("parsefloat", types.Typ[types.Float64], args[0], args[1])
			if ok {
				return []outcome{ret(st, v, tNil)}
			}
			return []outcome{ret(st, v, e.newError(st, site, mkFn("parsefailure", tString, args[0])))}
		}), true
	case "strconv.ParseBool":
		c := mkFn("parsebool.ok", tBool, args[0])
		return e.forkOn(st, c, func(st *State, ok bool) []outcome {
			if ok {
				return []outcome{ret(st, mkFn("parsebool", tBool, args[0]), tNil)}
			}
			return []outcome{ret(st, tFalse, e.newError(st, site, mkFn("parsefailure", tString, args[0])))}
		}), true
	case "math.IsNaN":
		return one(mkFn("isnan", tBool, args[0]))
	case "math.IsInf":
		x, k := args[0], args[1]
		pos, neg := mkFn("isposinf", tBool, x), mkFn("isneginf", tBool, x)
		if c, ok := k.smallInt(); ok {
			switch {
			case c > 0:
				return one(pos)
			case c < 0:
				return one(neg)
			}
			return one(mkOr(pos, neg))
		}
	case "sort.Strings", "slices.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		p := args[0]
		if p.op == "iface" {
			p = p.args[0]
		}
		if p.op == "slice" {
			q := st.seqOf(p)
			n := mkFn("sorted", nil, q)
			base := p.args[0]
			if base.op != "addr" && q == st.content(base) {
				st.heap[base] = n
				return []outcome{ret(st)}, true
			}
		}
		if p.op == "nil" {
			return []outcome{ret(st)}, true
		}
		return nil, false
	case "slices.Clone":
		q := st.seqOf(args[0])
		if args[0].op == "nil" {
			return one(tNil)
		}
		el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return one(st.newSlice(site, el, q, true))
	case "slices.Contains", "slices.Index":
		q := st.seqOf(args[0])
		if name == "slices.Contains" {
			return one(mkNot(mkLt0(mkFn("seqindex", tInt, q, args[1]))))
		}
		i := mkFn("seqindex", tInt, q, args[1])
		return e.forkOn(st, mkLt0(i), func(st *State, neg bool) []outcome {
			if neg {
				u := mk("univ", "-", nil, nil, nil, nil, mkInt(0), mkLen(q), mkEq(mkElem(q, kappa, args[1].typ), args[1]))
				st.facts.univ[u] = true
				return []outcome{ret(st, mkInt(-1))}
			}
			st.facts.addBound(tSub(tAddC(mkLen(q), -1), i), new(big.Int), nil)
			if !e.assume(st, mkEq(st.elem(q, i, args[1].typ), args[1]), true) {
				return nil
			}
			return []outcome{ret(st, i)}
		}), true
	case "slices.Delete":
		p, i, j := args[0], args[1], args[2]
		c := between(i, j, mkLen(p))
		return e.forkOn(st, c, func(st *State, ok bool) []outcome {
			if !ok {
				return []outcome{{kind: "panic", msg: "slices.Delete out of range", pos: pos, fn: e.cur, st: st}}
			}
			q := st.seqOf(p)
			n := mkScat(st.sslice(q, mkInt(0), i), st.sslice(q, j, mkLen(q)))
			if p.op == "slice" && p.args[0].op != "addr" {
				st.heap[p.args[0]] = mkScat(n, mkFn("cleared", nil, tSub(j, i)))
				return []outcome{ret(st, mk("slice", p.s, nil, nil, nil, nil, p.args[0], p.args[1], mkLen(n)))}
			}
			el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			return []outcome{ret(st, st.newSlice(site, el, n, true))}
		}), true
	case "maps.Clone":
		return one(st.alloc(site, fn.Signature.Results().At(0).Type(), st.load(args[0], nil)))
	case "os.Exit":
		return []outcome{}, true
	}
	// methods of error types
	if fn.Signature.Recv() != nil && fn.Name() == "Error" && fn.Signature.Params().Len() == 0 && (fn.Pkg == nil || !e.inl(fn)) {
		return one(e.errText(st, mkIface(fn.Signature.Recv().Type(), args[0])))
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if pkg == "" && fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	if pkg == commonPath && strings.HasPrefix(fn.Name(), "Is") && fn.Parent() == nil {
		return nil, false // analysed by body
	}
	switch pkg {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/big", "bytes", "errors", "time", "path", "cmp":
		pure := true
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
				pure = false
			}
		}
		if fn.Signature.Recv() != nil {
			if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok && pkg != "time" {
				pure = false
			}
		}
		if name == "time.Now" {
			return one(mkFn("clock", timeType))
		}
		if strings.HasPrefix(fn.Name(), "Append") || name == "time.Sleep" {
			pure = false
		}
		if name == "(time.Time).Format" {
			return one(mkFn("timeformat", tString, args...))
		}
		if pure {
			return e.pureFn(st, site, fn, args), true
		}
	}
	return nil, false
}

func byteStr(b *Term) *Term {
	if c, ok := b.smallInt(); ok {
		return mkStr(string([]byte{byte(c)}))
	}
	if b.op == "byteat" {
		return mkSubstr(b.args[0], b.args[1], tAddC(b.args[1], 1))
	}
	return mkFn("frombyte", tString, b)
}

// modelGetTime: times are copied; texts are parsed or refused; text held by value that is no time makes the
// common library panic; anything else is refused.
func (e *Eng) modelGetTime(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) []outcome {
	v := args[0]
	okAt := func(st *State, content *Term) []outcome {
		return []outcome{ret(st, st.alloc(site, timeType, content), tNil)}
	}
	bad := func(st *State) []outcome {
		return []outcome{ret(st, tNil, st.newSlice(site+"!errs", errType, mkSeq(e.newError(st, site, mkStr("time"))), false))}
	}
	pan := func(st *State, msg string) []outcome {
		return []outcome{{kind: "panic", msg: msg, pos: pos, fn: e.cur, st: st}}
	}
	if v.op == "nil" {
		return []outcome{ret(st, tNil, tNil)}
	}
	if v.op != "iface" {
		return []outcome{{kind: "undecided", msg: "GetTime of unknown content", pos: pos, fn: e.cur, st: st}}
	}
	places := func(st *State, f func(st *State) []outcome) []outcome {
		if len(args) < 2 {
			return f(st)
		}
		c := mkAnd(mkNot(mkLt0(args[1])), mkNot(mkLt0(tSub(mkInt(9), args[1]))))
		return e.forkOn(st, c, func(st *State, ok bool) []outcome {
			if ok {
				return f(st)
			}
			return bad(st)
		})
	}
	trunc := func(t *Term) *Term {
		if len(args) < 2 {
			return t
		}
		return mkFn("timewithplaces", timeType, t, args[1])
	}
	x := v.args[0]
	parse := func(st *State, s *Term, byValue bool) []outcome {
		c := mkFn("istime", tBool, append([]*Term{s}, args[1:]...)...)
		return e.forkOn(st, c, func(st *State, ok bool) []outcome {
			if ok {
				return okAt(st, trunc(mkFn("parsetime", timeType, s)))
			}
			if byValue {
				return pan(st, "common.GetTime panics for text held by value that is not a time")
			}
			return bad(st)
		})
	}
	switch typeString(v.typ) {
	case "time.Time":
		return places(st, func(st *State) []outcome { return okAt(st, trunc(x)) })
	case "*time.Time":
		return places(st, func(st *State) []outcome {
			return e.forkOn(st, mkEq(x, tNil), func(st *State, n bool) []outcome {
				if n {
					return pan(st, "common.GetTime dereferences a nil time")
				}
				return okAt(st, trunc(st.load(x, timeType)))
			})
		})
	case "*string":
		return places(st, func(st *State) []outcome {
			return e.forkOn(st, mkEq(x, tNil), func(st *State, n bool) []outcome {
				if n {
					return pan(st, "common.GetTime dereferences a nil text")
				}
				return parse(st, st.load(x, tString), false)
			})
		})
	case "string":
		return places(st, func(st *State) []outcome { return parse(st, x, true) })
	}
	return bad(st)
}

// invoke: method call on an interface value.
func (e *Eng) invoke(st *State, site string, recv *Term, cc *ssa.CallCommon, args []*Term, in *ssa.Call) []outcome {
	m := cc.Method
	if m.Name() == "Error" || m.Name() == "String" {
		if recv.op == "iface" {
			if _, ok := recv.typ.Underlying().(*types.Pointer); ok {
				x := recv.args[0]
				return e.forkOn(st, mkEq(x, tNil), func(st *State, n bool) []outcome {
					if n {
						return []outcome{{kind: "panic", msg: "method " + m.Name() + " of a nil " + typeString(recv.typ), pos: in.Pos(), fn: e.cur, st: st}}
					}
					return []outcome{ret(st, e.errText(st, recv))}
				})
			}
		}
		return []outcome{ret(st, e.errText(st, recv))}
	}
	if recv.op == "iface" && isBuilderT(recv.typ) {
		if fn := e.prog.LookupMethod(recv.typ, m.Pkg(), m.Name()); fn != nil {
			if o, ok := e.model(st, site, fn, append([]*Term{recv.args[0]}, args...), in.Pos()); ok {
				return o
			}
		}
	}
	if recv.op == "iface" {
		if fn := e.prog.LookupMethod(recv.typ, m.Pkg(), m.Name()); fn != nil && e.inl(fn) {
			return e.call(st, site, fn, append([]*Term{recv.args[0]}, args...), nil)
		}
	}
	return []outcome{{kind: "undecided", msg: "interface method " + m.FullName(), pos: in.Pos(), fn: e.cur, st: st}}
}

// printedFloat: the text is a float printed in full, so it parses at this width.
func printedFloat(s *Term, bits int) bool {
	if s.op != "fn" || !(s.s == "formatfloat" || s.s == "sprint%f" || s.s == "sprint%g" || s.s == "sprint%e" || s.s == "sprint%v") {
		return false
	}
	x := s.args[0]
	if x.op == "iface" {
		x = x.args[0]
	}
	if !isFloatType(x.typ) {
		return false
	}
	if x.op == "fn" && x.s == "tofloat64" && isFloatType(x.args[0].typ) {
		return true
	}
	return bits == 64 || x.typ.Underlying().(*types.Basic).Kind() == types.Float32
}
