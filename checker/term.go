package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Term is a hash-consed abstract value: two program values with the same Term are equal.
type Term struct {
	id   int
	op   string
	s    string
	args []*Term
	c    *big.Int // constant part of int/lin
	co   []int64  // coefficients of lin
	typ  types.Type
	fn   *ssa.Function
	syms map[string]bool // names of symbols with a loop prefix that occur inside
}

var (
	termTab  = map[string]*Term{}
	terms    []*Term
	typeIDs  typeutil.Map
	typeNext int
	fnIDs    = map[*ssa.Function]int{}
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := typeIDs.At(t); v != nil {
		return v.(int)
	}
	typeNext++
	typeIDs.Set(t, typeNext)
	return typeNext
}

func mk(op, s string, typ types.Type, fn *ssa.Function, c *big.Int, co []int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte(':')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(typeID(typ)))
	if fn != nil {
		id, ok := fnIDs[fn]
		if !ok {
			id = len(fnIDs) + 1
			fnIDs[fn] = id
		}
		b.WriteString("f" + strconv.Itoa(id))
	}
	if c != nil {
		b.WriteByte('#')
		b.WriteString(c.String())
	}
	for _, k := range co {
		b.WriteByte('*')
		b.WriteString(strconv.FormatInt(k, 10))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{id: len(terms), op: op, s: s, typ: typ, fn: fn, c: c, co: co, args: args}
	if op == "sym" && (strings.HasPrefix(s, "L") || strings.HasPrefix(s, "κ")) {
		t.syms = map[string]bool{s: true}
	}
	for _, a := range args {
		if len(a.syms) == 0 {
			continue
		}
		if t.syms == nil {
			t.syms = map[string]bool{}
		}
		for k := range a.syms {
			t.syms[k] = true
		}
	}
	terms = append(terms, t)
	termTab[key] = t
	return t
}

func (t *Term) hasSym(prefix string) bool {
	for k := range t.syms {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

// ---- constructors ----

var (
	tTrue  = mk("true", "", nil, nil, nil, nil)
	tFalse = mk("false", "", nil, nil, nil, nil)
	tNil   = mk("nil", "", nil, nil, nil, nil)
	tUnit  = mk("unit", "", nil, nil, nil, nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(v int64) *Term                   { return mk("int", "", nil, nil, big.NewInt(v), nil) }
func mkBig(v *big.Int) *Term                { return mk("int", "", nil, nil, new(big.Int).Set(v), nil) }
func mkStr(s string) *Term                  { return mk("str", s, nil, nil, nil, nil) }
func mkFloat(s string) *Term                { return mk("float", s, nil, nil, nil, nil) }
func mkSym(name string, t types.Type) *Term { return mk("sym", name, t, nil, nil, nil) }
func mkFn(name string, t types.Type, args ...*Term) *Term {
	return mk("fn", name, t, nil, nil, nil, args...)
}
func mkTuple(args ...*Term) *Term { return mk("tuple", "", nil, nil, nil, nil, args...) }
func mkStruct(t types.Type, args ...*Term) *Term {
	return mk("struct", "", t, nil, nil, nil, args...)
}
func mkIface(t types.Type, v *Term) *Term { return mk("iface", "", t, nil, nil, nil, v) }
func mkClo(fn *ssa.Function, b ...*Term) *Term {
	return mk("clo", "", nil, fn, nil, nil, b...)
}

// address: base is an "obj" term or an opaque pointer term; steps are field indices ("fs") or element indices ("es").
func mkObj(id string, t types.Type, counters ...*Term) *Term {
	return mk("obj", id, t, nil, nil, nil, counters...)
}
func mkSymAt(name string, t types.Type, counters ...*Term) *Term {
	return mk("sym", name, t, nil, nil, nil, counters...)
}
func mkAddr(base *Term, steps ...*Term) *Term {
	if len(steps) == 0 && base.op != "obj" {
		return base
	}
	return mk("addr", "", nil, nil, nil, nil, append([]*Term{base}, steps...)...)
}
func mkField(k int) *Term      { return mk("fs", strconv.Itoa(k), nil, nil, nil, nil) }
func mkElemStep(i *Term) *Term { return mk("es", "", nil, nil, nil, nil, i) }

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (t *Term) isInt() bool {
	switch t.op {
	case "int", "lin", "len", "byteat", "wrap":
		return true
	case "fn":
		return t.s == "num" || isIntType(t.typ)
	case "sym", "elem", "sel", "deref", "proj", "res", "unbox", "mget":
		return isIntType(t.typ)
	}
	return false
}

func (t *Term) isBool() bool {
	switch t.op {
	case "true", "false", "not", "eq", "lt0", "eq0", "mhas", "and":
		return true
	}
	return isBoolType(t.typ)
}
func (t *Term) isStr() bool {
	switch t.op {
	case "str", "cat", "substr":
		return true
	case "sym", "fn", "elem", "sel", "deref", "proj", "res", "unbox", "mget":
		return isStringType(t.typ)
	}
	return false
}

// ---- linear integers ----

type linT struct {
	c *big.Int
	m map[*Term]int64
}

func toLin(t *Term) linT {
	switch t.op {
	case "int":
		return linT{new(big.Int).Set(t.c), map[*Term]int64{}}
	case "lin":
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.co[i]
		}
		return linT{new(big.Int).Set(t.c), m}
	}
	return linT{new(big.Int), map[*Term]int64{t: 1}}
}

func fromLin(l linT) *Term {
	var as []*Term
	for a, k := range l.m {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkBig(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.c.Sign() == 0 {
		return as[0]
	}
	co := make([]int64, len(as))
	for i, a := range as {
		co[i] = l.m[a]
	}
	return mk("lin", "", nil, nil, l.c, co, as...)
}

func linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	la, lb := toLin(a), toLin(b)
	r := linT{new(big.Int), map[*Term]int64{}}
	r.c.Add(new(big.Int).Mul(la.c, big.NewInt(ka)), new(big.Int).Mul(lb.c, big.NewInt(kb)))
	for t, k := range la.m {
		r.m[t] += k * ka
	}
	for t, k := range lb.m {
		r.m[t] += k * kb
	}
	return fromLin(r)
}
func tAdd(a, b *Term) *Term         { return linComb(a, 1, b, 1) }
func tSub(a, b *Term) *Term         { return linComb(a, 1, b, -1) }
func tAddC(a *Term, k int64) *Term  { return linComb(a, 1, mkInt(1), k) }
func tScale(a *Term, k int64) *Term { return linComb(a, k, mkInt(0), 1) }
func (t *Term) constInt() (*big.Int, bool) {
	if t.op == "int" {
		return t.c, true
	}
	return nil, false
}
func (t *Term) smallInt() (int64, bool) {
	if t.op == "int" && t.c.IsInt64() {
		return t.c.Int64(), true
	}
	return 0, false
}

// ---- booleans ----

func mkNot(b *Term) *Term {
	switch b.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return b.args[0]
	}
	return mk("not", "", nil, nil, nil, nil, b)
}

// mkLt0: l < 0
func mkLt0(l *Term) *Term {
	if c, ok := l.constInt(); ok {
		return mkBool(c.Sign() < 0)
	}
	// rune of a one-byte text: the byte below 128, 65533 otherwise
	if ll := toLin(l); len(ll.m) == 1 {
		for a, k := range ll.m {
			if a.op != "fn" || a.s != "rune1" || k != 1 && k != -1 {
				continue
			}
			ascii := mk("lt0", "", nil, nil, nil, nil, tAddC(a.args[0], -128))
			if k == 1 { // rune < -c
				switch b := new(big.Int).Neg(ll.c); {
				case b.Cmp(big.NewInt(128)) <= 0:
					return mkLt0(tAdd(a.args[0], mkBig(ll.c)))
				case b.Cmp(big.NewInt(65533)) <= 0:
					return ascii
				}
				return tTrue
			}
			// rune > c
			switch {
			case ll.c.Sign() < 0:
				return tTrue
			case ll.c.Cmp(big.NewInt(128)) < 0:
				return mkLt0(tSub(mkBig(ll.c), a.args[0]))
			case ll.c.Cmp(big.NewInt(65533)) < 0:
				return mkNot(ascii)
			}
			return tFalse
		}
	}
	return mk("lt0", "", nil, nil, nil, nil, l)
}
func mkEq0(l *Term) *Term {
	if c, ok := l.constInt(); ok {
		return mkBool(c.Sign() == 0)
	}
	// rune of a one-byte text: compare on the byte
	ll := toLin(l)
	if len(ll.m) == 1 {
		for a, k := range ll.m {
			if a.op == "fn" && a.s == "rune1" && (k == 1 || k == -1) {
				v := new(big.Int).Set(ll.c)
				if k == 1 {
					v.Neg(v)
				}
				if v.Sign() < 0 {
					return tFalse
				}
				if v.Cmp(big.NewInt(128)) < 0 {
					return mkEq0(tSub(a.args[0], mkBig(v)))
				}
			}
		}
	}
	if l.op == "lin" && l.co[0] < 0 {
		l = tScale(l, -1)
	}
	return mk("eq0", "", nil, nil, nil, nil, l)
}

func tLess(a, b *Term) *Term { return mkLt0(tSub(a, b)) }
func tLeq(a, b *Term) *Term  { return mkNot(mkLt0(tSub(b, a))) }

func isNonNilOp(t *Term) bool {
	switch t.op {
	case "addr", "iface", "clo", "obj", "fnval":
		return true
	case "slice":
		return t.s == ""
	case "mapv":
		return true
	}
	return false
}

// mkEq: structural/semantic equality of two terms of the same Go type.
func mkEq(a, b *Term) *Term {
	if a == b {
		if a.op == "float" || isFloatType(a.typ) {
			if a.op == "float" {
				return tTrue
			}
			return mk("not", "", nil, nil, nil, nil, mkFn("isnan", types.Typ[types.Bool], a))
		}
		return tTrue
	}
	if a.isInt() || b.isInt() {
		return mkEq0(tSub(a, b))
	}
	if a.op == "true" {
		return b
	}
	if b.op == "true" {
		return a
	}
	if a.op == "false" {
		return mkNot(b)
	}
	if b.op == "false" {
		return mkNot(a)
	}
	if a.op == "str" && b.op == "str" {
		return tFalse
	}
	if a.isStr() || b.isStr() {
		if a.op == "str" && a.s == "" {
			return mkEq0(mkLen(b))
		}
		if b.op == "str" && b.s == "" {
			return mkEq0(mkLen(a))
		}
		x, c := a, b
		if x.op == "str" {
			x, c = b, a
		}
		if c.op == "str" {
			if n, ok := mkLen(x).smallInt(); ok {
				if int(n) != len(c.s) {
					return tFalse
				}
				if n == 1 {
					return mkEq0(tAddC(mkByteAt(x, mkInt(0)), -int64(c.s[0])))
				}
			}
		}
		if x.op == "fn" && x.s == "typename" && c.op == "str" {
			// keep as atom; no dynamic type is an interface type
			if c.s == "error" || c.s == "interface {}" || c.s == "any" {
				return tFalse
			}
		}
	}
	if a.op == "nil" && isNonNilOp(b) || b.op == "nil" && isNonNilOp(a) {
		return tFalse
	}
	if a.op == "addr" && b.op == "addr" && a.args[0].op == "obj" && b.args[0].op == "obj" && a.args[0] != b.args[0] {
		x, y := a.args[0], b.args[0]
		if x.s != y.s || x.typ != y.typ || len(x.args) != len(y.args) {
			return tFalse
		}
		for i := range x.args {
			if mkEq(x.args[i], y.args[i]) == tFalse {
				return tFalse
			}
		}
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		all := true
		for i := range a.args {
			r := mkEq(a.args[i], b.args[i])
			if r == tFalse {
				return tFalse
			}
			if r != tTrue {
				all = false
			}
		}
		if all {
			return tTrue
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", nil, nil, nil, nil, a, b)
}

// ---- lengths, strings ----

func mkLen(t *Term) *Term {
	switch t.op {
	case "str":
		return mkInt(int64(len(t.s)))
	case "nil":
		return mkInt(0)
	case "cat":
		r := mkInt(0)
		for _, a := range t.args {
			r = tAdd(r, mkLen(a))
		}
		return r
	case "substr":
		return tSub(t.args[2], t.args[1])
	case "seq":
		return mkInt(int64(len(t.args)))
	case "scat":
		r := mkInt(0)
		for _, a := range t.args {
			r = tAdd(r, mkLen(a))
		}
		return r
	case "sslice":
		return tSub(t.args[2], t.args[1])
	case "supd":
		return mkLen(t.args[0])
	case "slice":
		return t.args[2]
	case "smap":
		// all pieces of length one?
		if n := smapPieceLen(t); n >= 0 {
			return tScale(tSub(t.args[1], t.args[0]), int64(n))
		}
	case "fn":
		if t.s == "clone" {
			return mkLen(t.args[0])
		}
		if t.s == "frombyte" {
			return mkInt(1)
		}
		if t.s == "sorted" {
			return mkLen(t.args[0])
		}
		if t.s == "cleared" {
			return t.args[0]
		}
	}
	return mk("len", "", nil, nil, nil, nil, t)
}

func mkSubstr(s, lo, hi *Term) *Term {
	if lo == hi {
		return mkStr("")
	}
	if l, ok := lo.smallInt(); ok && l == 0 && hi == mkLen(s) {
		return s
	}
	switch s.op {
	case "str":
		l, ok1 := lo.smallInt()
		h, ok2 := hi.smallInt()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s.s)) {
			return mkStr(s.s[l:h])
		}
	case "substr":
		return mkSubstr(s.args[0], tAdd(s.args[1], lo), tAdd(s.args[1], hi))
	case "cat":
		// boundaries
		pos := mkInt(0)
		st, en := -1, -1
		for i := 0; i <= len(s.args); i++ {
			if pos == lo && st < 0 {
				st = i
			}
			if pos == hi {
				en = i
			}
			if i < len(s.args) {
				pos = tAdd(pos, mkLen(s.args[i]))
			}
		}
		if st >= 0 && en >= st {
			return mkCat(s.args[st:en]...)
		}
	}
	return mk("substr", "", nil, nil, nil, nil, s, lo, hi)
}

func mkByteAt(s, i *Term) *Term {
	switch s.op {
	case "str":
		if k, ok := i.smallInt(); ok && k >= 0 && k < int64(len(s.s)) {
			return mkInt(int64(s.s[k]))
		}
	case "substr":
		return mkByteAt(s.args[0], tAdd(s.args[1], i))
	case "fn":
		if s.s == "frombyte" {
			return s.args[0]
		}
	}
	return mk("byteat", "", nil, nil, nil, nil, s, i)
}

func mkCat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == "cat" {
			for _, a := range p.args {
				add(a)
			}
			return
		}
		if p.op == "str" && p.s == "" {
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == "str" && p.op == "str" {
				out[n-1] = mkStr(l.s + p.s)
				return
			}
			if l.op == "substr" && p.op == "substr" && l.args[0] == p.args[0] && l.args[2] == p.args[1] {
				out[n-1] = mkSubstr(l.args[0], l.args[1], p.args[2])
				return
			}
			// a prefix slice from 0 merges too because substr keeps explicit bounds
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", nil, nil, nil, nil, out...)
}

// ---- sequences ----

func mkSeq(args ...*Term) *Term { return mk("seq", "", nil, nil, nil, nil, args...) }

func mkScat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == "scat" {
			for _, a := range p.args {
				add(a)
			}
			return
		}
		if p.op == "seq" && len(p.args) == 0 {
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == "seq" && p.op == "seq" {
				out[n-1] = mkSeq(append(append([]*Term{}, l.args...), p.args...)...)
				return
			}
			if l.op == "sslice" && p.op == "sslice" && l.args[0] == p.args[0] && l.args[2] == p.args[1] {
				out[n-1] = mkSslice(l.args[0], l.args[1], p.args[2])
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return mkSeq()
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("scat", "", nil, nil, nil, nil, out...)
}

func mkSslice(s, lo, hi *Term) *Term {
	if lo == hi {
		return mkSeq()
	}
	if l, ok := lo.smallInt(); ok && l == 0 && hi == mkLen(s) {
		return s
	}
	switch s.op {
	case "seq":
		l, ok1 := lo.smallInt()
		h, ok2 := hi.smallInt()
		if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(s.args) {
			return mkSeq(s.args[l:h]...)
		}
	case "sslice":
		return mkSslice(s.args[0], tAdd(s.args[1], lo), tAdd(s.args[1], hi))
	case "scat":
		pos := mkInt(0)
		st, en := -1, -1
		for i := 0; i <= len(s.args); i++ {
			if pos == lo && st < 0 {
				st = i
			}
			if pos == hi {
				en = i
			}
			if i < len(s.args) {
				pos = tAdd(pos, mkLen(s.args[i]))
			}
		}
		if st >= 0 && en >= st {
			return mkScat(s.args[st:en]...)
		}
		// cut the last part when it is a literal: scat(a, seq(x)) [0 : len-1]
		if st == 0 {
			last := s.args[len(s.args)-1]
			if last.op == "seq" {
				d, ok := tSub(mkLen(s), hi).smallInt()
				if ok && d >= 0 && int(d) <= len(last.args) {
					return mkScat(append(append([]*Term{}, s.args[:len(s.args)-1]...), mkSeq(last.args[:len(last.args)-int(d)]...))...)
				}
			}
		}
	}
	return mk("sslice", "", nil, nil, nil, nil, s, lo, hi)
}

func mkElem(s, i *Term, typ types.Type) *Term {
	switch s.op {
	case "seq":
		if k, ok := i.smallInt(); ok && k >= 0 && int(k) < len(s.args) {
			return s.args[k]
		}
	case "sslice":
		return mkElem(s.args[0], tAdd(s.args[1], i), typ)
	case "supd":
		if s.args[1] == i {
			return s.args[2]
		}
		if d, ok := tSub(s.args[1], i).smallInt(); ok && d != 0 {
			return mkElem(s.args[0], i, typ)
		}
	case "scat":
		// from the front
		pos := mkInt(0)
		for _, a := range s.args {
			d := tSub(i, pos)
			if k, ok := d.smallInt(); ok && a.op == "seq" && k >= 0 && int(k) < len(a.args) {
				return a.args[k]
			}
			pos = tAdd(pos, mkLen(a))
		}
		// from the back
		pos = mkLen(s)
		for n := len(s.args) - 1; n >= 0; n-- {
			a := s.args[n]
			pos = tSub(pos, mkLen(a))
			d := tSub(i, pos)
			if k, ok := d.smallInt(); ok && a.op == "seq" && k >= 0 && int(k) < len(a.args) {
				return a.args[k]
			}
		}
		// constant index inside the first part when it is long enough is decided by the caller through facts
	case "smap":
		if smapPieceLen(s) == 1 {
			if cs := smapCases(s); len(cs) == 1 {
				return substSym(cs[0].piece.args[0], "κ", tAdd(i, s.args[0]))
			}
		}
	}
	return mk("elem", "", typ, nil, nil, nil, s, i)
}

func mkSupd(s, i, v *Term) *Term {
	if s.op == "seq" {
		if k, ok := i.smallInt(); ok && k >= 0 && int(k) < len(s.args) {
			n := append([]*Term{}, s.args...)
			n[k] = v
			return mkSeq(n...)
		}
	}
	return mk("supd", "", nil, nil, nil, nil, s, i, v)
}

// smap(lo, hi, case...): the concatenation for κ in [lo,hi) of the piece of the case that applies.
// case = ("case"; piece, guard...); guards are "pos"/"neg" literals.
type smapCase struct {
	piece  *Term
	guards []*Term
}

var kappa = mkSym("κ", types.Typ[types.Int])

func smapCases(t *Term) []smapCase {
	var r []smapCase
	for _, c := range t.args[2:] {
		r = append(r, smapCase{c.args[0], c.args[1:]})
	}
	return r
}

func smapPieceLen(t *Term) int {
	n := -1
	for _, c := range t.args[2:] {
		p := c.args[0]
		if p.op != "seq" {
			return -1
		}
		if n >= 0 && n != len(p.args) {
			return -1
		}
		n = len(p.args)
	}
	return n
}

func mkSmap(lo, hi *Term, cases []smapCase) *Term {
	if lo == hi || len(cases) == 0 {
		return mkSeq()
	}
	if k, ok := lo.smallInt(); !ok || k != 0 {
		var n []smapCase
		for _, c := range cases {
			d := smapCase{piece: subst(c.piece, kappa, tAdd(kappa, lo))}
			for _, g := range c.guards {
				d.guards = append(d.guards, subst(g, kappa, tAdd(kappa, lo)))
			}
			n = append(n, d)
		}
		cases, hi, lo = n, tSub(hi, lo), mkInt(0)
	}
	// merge cases with the same piece: guards are intersected
	var merged []smapCase
	for _, c := range cases {
		done := false
		for i := range merged {
			if merged[i].piece == c.piece {
				var g []*Term
				for _, x := range merged[i].guards {
					for _, y := range c.guards {
						if x == y {
							g = append(g, x)
						}
					}
				}
				merged[i].guards = g
				done = true
			}
		}
		if !done {
			merged = append(merged, c)
		}
	}
	var cs []*Term
	for _, c := range merged {
		g := append([]*Term{}, c.guards...)
		sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
		cs = append(cs, mk("case", "", nil, nil, nil, nil, append([]*Term{c.piece}, g...)...))
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return mk("smap", "", nil, nil, nil, nil, append([]*Term{lo, hi}, cs...)...)
}

// ---- substitution ----

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "lin":
		r := mkBig(t.c)
		for i, a := range args {
			r = linComb(r, 1, a, t.co[i])
		}
		return r
	case "not":
		return mkNot(args[0])
	case "lt0":
		return mkLt0(args[0])
	case "eq0":
		return mkEq0(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "len":
		return mkLen(args[0])
	case "cat":
		return mkCat(args...)
	case "substr":
		return mkSubstr(args[0], args[1], args[2])
	case "byteat":
		return mkByteAt(args[0], args[1])
	case "scat":
		return mkScat(args...)
	case "sslice":
		return mkSslice(args[0], args[1], args[2])
	case "elem":
		return mkElem(args[0], args[1], t.typ)
	case "supd":
		return mkSupd(args[0], args[1], args[2])
	case "smap":
		var cs []smapCase
		for _, c := range args[2:] {
			cs = append(cs, smapCase{c.args[0], c.args[1:]})
		}
		return mkSmap(args[0], args[1], cs)
	case "sel":
		return mkSel(args[0], fieldIdx(t), t.typ)
	case "proj":
		return mkProj(args[0], fieldIdx(t), t.typ)
	}
	return mk(t.op, t.s, t.typ, t.fn, t.c, t.co, args...)
}

func fieldIdx(t *Term) int { k, _ := strconv.Atoi(t.s); return k }

func mkSel(st *Term, k int, typ types.Type) *Term {
	if st.op == "struct" {
		return st.args[k]
	}
	return mk("sel", strconv.Itoa(k), typ, nil, nil, nil, st)
}
func mkProj(tp *Term, k int, typ types.Type) *Term {
	if tp.op == "tuple" {
		return tp.args[k]
	}
	return mk("proj", strconv.Itoa(k), typ, nil, nil, nil, tp)
}

func substMap(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = substMap(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func subst(t *Term, from, to *Term) *Term {
	return substMap(t, map[*Term]*Term{from: to}, map[*Term]*Term{})
}
func substSym(t *Term, name string, to *Term) *Term { return subst(t, kappa, to) }

func (t *Term) contains(x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var g func(t *Term)
	g = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.args {
			g(a)
		}
	}
	g(t)
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 9 {
		return "…"
	}
	as := func(l []*Term) string {
		var r []string
		for _, a := range l {
			r = append(r, a.str(d+1))
		}
		if len(r) > 24 {
			r = append(r[:24], "…")
		}
		return strings.Join(r, ", ")
	}
	switch t.op {
	case "int":
		return t.c.String()
	case "str":
		return strconv.Quote(t.s)
	case "float":
		return t.s
	case "true", "false", "nil", "unit":
		return t.op
	case "sym", "obj":
		if len(t.args) > 0 {
			return t.s + "[" + as(t.args) + "]"
		}
		return t.s
	case "lin":
		var b []string
		for i, a := range t.args {
			switch t.co[i] {
			case 1:
				b = append(b, a.str(d+1))
			case -1:
				b = append(b, "-"+a.str(d+1))
			default:
				b = append(b, fmt.Sprintf("%d*%s", t.co[i], a.str(d+1)))
			}
		}
		if t.c.Sign() != 0 {
			b = append(b, t.c.String())
		}
		return "(" + strings.Join(b, " + ") + ")"
	case "not":
		return "!" + t.args[0].str(d+1)
	case "lt0":
		return t.args[0].str(d+1) + "<0"
	case "eq0":
		return t.args[0].str(d+1) + "==0"
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case "fn":
		return t.s + "(" + as(t.args) + ")"
	case "iface":
		return "any[" + typeString(t.typ) + "](" + as(t.args) + ")"
	case "clo":
		return "closure " + t.fn.Name()
	case "struct":
		return "struct{" + as(t.args) + "}"
	case "res":
		return t.s + "(" + as(t.args) + ")"
	case "sel", "proj":
		return t.args[0].str(d+1) + "." + t.s
	case "fs", "es":
		return "." + t.s + as(t.args)
	}
	return t.op + "(" + as(t.args) + ")"
}

// typeString renders a type the way %T does.
func typeString(t types.Type) string {
	switch t := t.(type) {
	case nil:
		return "?"
	case *types.Alias:
		return typeString(types.Unalias(t))
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return t.Name()
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return t.Obj().Pkg().Name() + "." + t.Obj().Name()
	case *types.Pointer:
		return "*" + typeString(t.Elem())
	case *types.Slice:
		return "[]" + typeString(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeString(t.Elem()))
	case *types.Map:
		return "map[" + typeString(t.Key()) + "]" + typeString(t.Elem())
	case *types.Interface:
		if t.Empty() {
			return "interface {}"
		}
		return t.String()
	case *types.Struct:
		return t.String()
	case *types.Chan:
		return "chan " + typeString(t.Elem())
	case *types.Signature:
		var p []string
		for i := 0; i < t.Params().Len(); i++ {
			x := typeString(t.Params().At(i).Type())
			if t.Variadic() && i == t.Params().Len()-1 {
				x = "..." + strings.TrimPrefix(x, "[]")
			}
			p = append(p, x)
		}
		r := ""
		switch t.Results().Len() {
		case 0:
		case 1:
			r = " " + typeString(t.Results().At(0).Type())
		default:
			var q []string
			for i := 0; i < t.Results().Len(); i++ {
				q = append(q, typeString(t.Results().At(i).Type()))
			}
			r = " (" + strings.Join(q, ", ") + ")"
		}
		return "func(" + strings.Join(p, ", ") + ")" + r
	}
	return t.String()
}
