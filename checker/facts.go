package main

import (
	"go/types"
	"math/big"
	"sort"
)

// Facts is what is known on one abstract path: truth values of boolean atoms, and intervals of linear forms.
type Facts struct {
	truth  map[*Term]bool
	bounds map[*Term]*interval // normalised linear body (no constant, first coefficient positive) -> interval
	sconst map[*Term]string    // text term -> its known constant
	univ   map[*Term]bool      // univ(P,lo,hi): P[κ] holds for all κ in [lo,hi)
}

type interval struct{ lo, hi *big.Int } // nil = unbounded

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, bounds: map[*Term]*interval{}, sconst: map[*Term]string{}, univ: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{make(map[*Term]bool, len(f.truth)+4), make(map[*Term]*interval, len(f.bounds)+4), make(map[*Term]string, len(f.sconst)+1), make(map[*Term]bool, len(f.univ))}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.bounds {
		g.bounds[k] = v
	}
	for k, v := range f.sconst {
		g.sconst[k] = v
	}
	for k, v := range f.univ {
		g.univ[k] = v
	}
	return g
}

var (
	bigMaxLen = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 62), big.NewInt(1))
)

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	one := big.NewInt(1)
	sg := func(n uint) (*big.Int, *big.Int) {
		h := new(big.Int).Lsh(one, n-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	us := func(n uint) (*big.Int, *big.Int) {
		h := new(big.Int).Lsh(one, n)
		return new(big.Int), new(big.Int).Sub(h, one)
	}
	switch b.Kind() {
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32, types.UntypedRune:
		return sg(32)
	case types.Int64, types.Int, types.UntypedInt:
		return sg(64)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return us(64)
	}
	return nil, nil
}

// atomRange is the interval an atom has by its kind alone.
func atomRange(a *Term) (lo, hi *big.Int) {
	switch a.op {
	case "len":
		return new(big.Int), bigMaxLen
	case "byteat":
		return new(big.Int), big.NewInt(255)
	case "fn":
		if a.s == "rune1" {
			return new(big.Int), big.NewInt(65533)
		}
		if a.s == "count" || a.s == "popcount" {
			return new(big.Int), bigMaxLen
		}
		if a.s == "index" {
			return big.NewInt(-1), bigMaxLen
		}
	}
	if a.typ != nil {
		return intRange(a.typ)
	}
	return nil, nil
}

func (f *Facts) atomBounds(a *Term) (lo, hi *big.Int) {
	lo, hi = atomRange(a)
	if a.op == "fn" && a.s == "rune1" {
		if bl, bh := f.rng(a.args[0]); bh != nil && bh.Cmp(big.NewInt(128)) < 0 {
			lo, hi = bl, bh
		} else if bl != nil && bl.Cmp(big.NewInt(128)) >= 0 {
			lo = hi
		} else {
			lo = bl
		}
	}
	if iv, ok := f.bounds[a]; ok {
		if iv.lo != nil && (lo == nil || iv.lo.Cmp(lo) > 0) {
			lo = iv.lo
		}
		if iv.hi != nil && (hi == nil || iv.hi.Cmp(hi) < 0) {
			hi = iv.hi
		}
	}
	return
}

// split returns the normalised body, the sign with which it occurs, and the constant: l = sign*body + c.
func splitLin(l *Term) (body *Term, sign int64, c *big.Int) {
	if l.op == "int" {
		return nil, 0, l.c
	}
	if l.op != "lin" {
		return l, 1, new(big.Int)
	}
	ll := toLin(l)
	c = ll.c
	ll.c = new(big.Int)
	b := fromLin(ll)
	if b.op == "lin" && b.co[0] < 0 {
		return tScale(b, -1), -1, c
	}
	return b, 1, c
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func maxB(a, b *big.Int) *big.Int { // tighter lower
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// rng returns the interval known for a linear term.
func (f *Facts) rng(l *Term) (lo, hi *big.Int) { return f.rngD(l, 2) }

func (f *Facts) rngD(l *Term, depth int) (lo, hi *big.Int) {
	if c, ok := l.constInt(); ok {
		return c, c
	}
	// atom-wise
	ll := toLin(l)
	lo, hi = new(big.Int).Set(ll.c), new(big.Int).Set(ll.c)
	for a, k := range ll.m {
		al, ah := f.atomBounds(a)
		if k < 0 {
			al, ah = ah, al
		}
		kk := big.NewInt(k)
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(kk, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(kk, ah))
			}
		}
	}
	body, sign, c := splitLin(l)
	if iv, ok := f.bounds[body]; ok {
		bl, bh := iv.lo, iv.hi
		if sign < 0 {
			bl, bh = negB(iv.hi), negB(iv.lo)
		}
		lo = maxB(lo, addB(bl, c))
		hi = minB(hi, addB(bh, c))
	}
	if depth > 0 {
		// combine with each stored body sharing an atom
		for b, iv := range f.bounds {
			if b == body || len(ll.m) == 0 {
				continue
			}
			if b.op != "lin" {
				continue
			}
			for i, a := range b.args {
				k, ok := ll.m[a]
				if !ok || k%b.co[i] != 0 {
					continue
				}
				q := k / b.co[i]
				if q != 1 && q != -1 {
					continue
				}
				rest := linComb(l, 1, b, -q)
				if n := len(toLin(rest).m); n > len(ll.m) && n > 2 {
					continue
				}
				bl, bh := iv.lo, iv.hi
				if q < 0 {
					bl, bh = negB(iv.hi), negB(iv.lo)
				}
				if bl == nil && bh == nil {
					continue
				}
				rl, rh := f.rngD(rest, depth-1)
				lo = maxB(lo, addB(bl, rl))
				hi = minB(hi, addB(bh, rh))
			}
		}
	}
	return lo, hi
}

func negB(a *big.Int) *big.Int {
	if a == nil {
		return nil
	}
	return new(big.Int).Neg(a)
}

// eval decides a boolean term: 1 true, -1 false, 0 unknown.
func (f *Facts) eval(b *Term) int {
	switch b.op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -f.eval(b.args[0])
	}
	if v, ok := f.truth[b]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch b.op {
	case "lt0":
		lo, hi := f.rng(b.args[0])
		if hi != nil && hi.Sign() < 0 {
			return 1
		}
		if lo != nil && lo.Sign() >= 0 {
			return -1
		}
	case "eq0":
		lo, hi := f.rng(b.args[0])
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return -1
		}
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
		// a known disequality a-b != 0 is in truth already
	case "eq":
		x, y := b.args[0], b.args[1]
		if y.op == "str" {
			x, y = y, x
		}
		if x.op == "str" {
			if c, ok := f.sconst[y]; ok {
				if c == x.s {
					return 1
				}
				return -1
			}
			// lengths differ?
			lo, hi := f.rng(tAddC(mkLen(y), -int64(len(x.s))))
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return -1
			}
		}
		if x.op == "nil" || y.op == "nil" {
			z := x
			if z.op == "nil" {
				z = y
			}
			if f.nonNil(z) {
				return -1
			}
		}
		// universally known disequality / substitution by index bounds
	case "and":
		r := 1
		for _, a := range b.args {
			v := f.eval(a)
			if v < 0 {
				return -1
			}
			if v == 0 {
				r = 0
			}
		}
		return r
	}
	// universally quantified facts
	if len(f.univ) > 0 {
		if r := f.evalUniv(b); r != 0 {
			return r
		}
	}
	return 0
}

func (f *Facts) nonNil(t *Term) bool {
	if isNonNilOp(t) {
		return true
	}
	if t.op == "smapptr" {
		return true
	}
	x := t
	if t.op == "unbox" {
		x = t.args[0]
	}
	if x.op == "fn" || x.op == "sym" || x.op == "elem" || x.op == "deref" {
		if v, ok := f.truth[mkFn("isnil", types.Typ[types.Bool], x)]; ok && !v {
			return true
		}
	}
	if v, ok := f.truth[mkEq(t, tNil)]; ok {
		return !v
	}
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Slice); ok && t.op != "iface" {
			if lo, _ := f.rng(mkLen(t)); lo != nil && lo.Sign() > 0 {
				return true
			}
		}
	}
	return false
}
func (f *Facts) isNil(t *Term) bool {
	if t.op == "nil" {
		return true
	}
	if v, ok := f.truth[mkEq(t, tNil)]; ok {
		return v
	}
	return false
}

// univ facts: term op "univ" args: lo, hi, atom-with-κ, payload "+"/"-"
func (f *Facts) evalUniv(b *Term) int {
	for u := range f.univ {
		pat := u.args[2]
		if pat.op != b.op {
			continue
		}
		// find κ by matching
		var idx *Term
		if !matchKappa(pat, b, &idx) || idx == nil {
			continue
		}
		l1, _ := f.rng(tSub(idx, u.args[0]))
		l2, _ := f.rng(tSub(tAddC(u.args[1], -1), idx))
		if l1 != nil && l1.Sign() >= 0 && l2 != nil && l2.Sign() >= 0 {
			if u.s == "+" {
				return 1
			}
			return -1
		}
	}
	return 0
}

func matchKappa(p, t *Term, idx **Term) bool {
	if p == kappa {
		if *idx == nil {
			*idx = t
			return true
		}
		return *idx == t
	}
	if p == t {
		return true
	}
	if p.syms == nil || !p.syms["κ"] {
		return false
	}
	if p.op == "lin" && t.isInt() {
		// κ + rest
		l := toLin(p)
		if l.m[kappa] == 1 {
			rest := tSub(p, kappa)
			return matchKappa(kappa, tSub(t, rest), idx)
		}
	}
	if p.op != t.op || p.s != t.s || p.fn != t.fn || len(p.args) != len(t.args) {
		return false
	}
	if typeID(p.typ) != typeID(t.typ) {
		return false
	}
	for i := range p.args {
		if !matchKappa(p.args[i], t.args[i], idx) {
			return false
		}
	}
	return true
}

func (f *Facts) addBound(l *Term, lo, hi *big.Int) bool {
	body, sign, c := splitLin(l)
	if body == nil {
		if lo != nil && c.Cmp(lo) < 0 || hi != nil && c.Cmp(hi) > 0 {
			return false
		}
		return true
	}
	// sign*body + c in [lo,hi]
	nl, nh := addB(lo, negB(c)), addB(hi, negB(c))
	if sign < 0 {
		nl, nh = negB(nh), negB(nl)
	}
	iv := f.bounds[body]
	n := &interval{nl, nh}
	if iv != nil {
		n.lo = maxB(iv.lo, nl)
		n.hi = minB(iv.hi, nh)
	}
	if n.lo != nil && n.hi != nil && n.lo.Cmp(n.hi) > 0 {
		return false
	}
	f.bounds[body] = n
	return true
}

// assume adds b (or its negation); false when the facts become contradictory.
func (f *Facts) assume(b *Term, v bool) bool {
	for b.op == "not" {
		b = b.args[0]
		v = !v
	}
	switch f.eval(b) {
	case 1:
		if !v {
			return false
		}
	case -1:
		if v {
			return false
		}
	}
	if b.op == "true" || b.op == "false" {
		return true
	}
	if b.op == "and" {
		if v {
			for _, a := range b.args {
				if !f.assume(a, true) {
					return false
				}
			}
			return true
		}
	}
	f.truth[b] = v
	switch b.op {
	case "lt0":
		if v {
			if !f.addBound(b.args[0], nil, big.NewInt(-1)) {
				return false
			}
		} else if !f.addBound(b.args[0], new(big.Int), nil) {
			return false
		}
		f.tightenNe()
	case "eq0":
		if v {
			if !f.addBound(b.args[0], new(big.Int), new(big.Int)) {
				return false
			}
			f.tightenNe()
		} else {
			lo, hi := f.rng(b.args[0])
			if lo != nil && lo.Sign() == 0 {
				if !f.addBound(b.args[0], big.NewInt(1), nil) {
					return false
				}
			} else if hi != nil && hi.Sign() == 0 {
				if !f.addBound(b.args[0], nil, big.NewInt(-1)) {
					return false
				}
			}
		}
	case "eq":
		x, y := b.args[0], b.args[1]
		if y.op == "str" {
			x, y = y, x
		}
		if x.op == "str" && v {
			if c, ok := f.sconst[y]; ok && c != x.s {
				return false
			}
			f.sconst[y] = x.s
			n := int64(len(x.s))
			if !f.addBound(mkLen(y), big.NewInt(n), big.NewInt(n)) {
				return false
			}
		}
		if (x.op == "nil" || y.op == "nil") && v {
			z := x
			if z.op == "nil" {
				z = y
			}
			if z.op == "sym" || z.op == "proj" || z.op == "res" || z.op == "elem" || z.op == "sel" || z.op == "deref" {
				if z.typ != nil {
					switch z.typ.Underlying().(type) {
					case *types.Slice, *types.Map:
						if !f.addBound(mkLen(z), new(big.Int), new(big.Int)) {
							return false
						}
					}
				}
			}
		}
	case "fn":
		switch b.s {
		case "hasprefix", "hassuffix", "contains":
			if v && b.args[1].op == "str" {
				n := int64(len(b.args[1].s))
				if !f.addBound(tAddC(mkLen(b.args[0]), -n), new(big.Int), nil) {
					return false
				}
			}
		}
	}
	return true
}

// tightenNe uses recorded disequalities at interval end points.
func (f *Facts) tightenNe() {
	for t, v := range f.truth {
		if t.op == "eq0" && !v {
			body, sign, c := splitLin(t.args[0])
			iv := f.bounds[body]
			if iv == nil {
				continue
			}
			// body != point
			pt := negB(c)
			if sign < 0 {
				pt = new(big.Int).Set(c)
			}
			if iv.lo != nil && iv.lo.Cmp(pt) == 0 {
				f.bounds[body] = &interval{new(big.Int).Add(iv.lo, big.NewInt(1)), iv.hi}
			} else if iv.hi != nil && iv.hi.Cmp(pt) == 0 {
				f.bounds[body] = &interval{iv.lo, new(big.Int).Sub(iv.hi, big.NewInt(1))}
			}
		}
	}
}

func (f *Facts) sortedTruth() []*Term {
	var r []*Term
	for t := range f.truth {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
func (f *Facts) sortedBounds() []*Term {
	var r []*Term
	for t := range f.bounds {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
func (f *Facts) sortedUniv() []*Term {
	var r []*Term
	for t := range f.univ {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
