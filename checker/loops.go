package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A loop is analysed to a fixpoint over a set of head partitions. Every value is written as a function of the
// round counter n: counters become t0+d*n, accumulators become start ++ (one piece per earlier round), windows of
// an input text become substr(text, σ, end(n)), everything else becomes an unknown of its type.

type slotClass struct {
	kind string // "", "line", "acc", "substr", "opaque"
	v0   *Term  // value on entry
	d    int64
	base *Term // substr: the text
	end  *Term // substr: end as a function of n
	off  *Term // fill: the position the first round writes
	typ  types.Type
}

type piece struct {
	p      *Term
	guards []*Term
}

// pieceInfo is what is known whenever the piece is the one appended: conditions over κ. The rounds are kept with all
// their facts, so that a condition met later can still be found to hold in them.
type pieceInfo struct {
	guards []*Term
	rest   bool // some round is not in pins
	pins   []pinned
}

type pinned struct {
	k     *Term // κ in the round's vocabulary
	facts *Facts
}

func (p pinned) holds(g *Term) bool {
	return p.facts.eval(subst(g, kappa, p.k)) == 1
}

func (p *pieceInfo) has(g *Term) bool {
	for _, x := range p.guards {
		if x == g {
			return true
		}
	}
	return false
}

// merge keeps the conditions that hold whenever either applies.
func (p *pieceInfo) merge(q *pieceInfo) *pieceInfo {
	r := &pieceInfo{rest: p.rest || q.rest}
	add := func(pi pinned) {
		for _, o := range r.pins {
			if o == pi {
				return
			}
		}
		r.pins = append(r.pins, pi)
	}
	for _, x := range p.pins {
		add(x)
	}
	for _, x := range q.pins {
		add(x)
	}
	entails := func(p *pieceInfo, g *Term) bool {
		if p.has(g) {
			return true
		}
		if p.rest || len(p.pins) == 0 {
			return false
		}
		for _, pi := range p.pins {
			if !pi.holds(g) {
				return false
			}
		}
		return true
	}
	for _, g := range p.guards {
		if entails(q, g) {
			r.guards = append(r.guards, g)
		}
	}
	for _, g := range q.guards {
		if !p.has(g) && entails(p, g) {
			r.guards = append(r.guards, g)
		}
	}
	if len(r.pins) > 64 {
		r.pins, r.rest = nil, true
	}
	return r
}

type part struct {
	key    string
	st     *State
	pieces map[string]map[*Term]*pieceInfo // slot -> piece (over κ)
	sig    string
}

type arrival struct {
	st     *State
	src    *part // nil: loop entry
	pieces map[string]piece
}

type loopRun struct {
	e       *Eng
	id      string
	l       *loopInfo
	fi      *fnInfo
	n       *Term
	live    []int
	class   map[string]*slotClass
	order   []string
	base    *State // entry state without facts on n
	strvals map[string]map[string]bool
	round   int
	univTop bool
	tried   map[tryKey]int
}

func (r *loopRun) sym(slot string, t types.Type) *Term {
	return mkSym("L"+r.id+":"+slot, t)
}

func (e *Eng) runLoop(st *State, l *loopInfo) []exit {
	if e.fewRounds(st, l) {
		return e.unroll(st, l)
	}
	if e.auto != nil {
		return e.auto.runLoop(st, l)
	}
	f := st.top()
	e.loopsSeen[l.head]++
	r := &loopRun{e: e, l: l, fi: f.fi, id: f.ctx + "b" + fmt.Sprint(l.head.Index), class: map[string]*slotClass{}, strvals: map[string]map[string]bool{}, tried: map[tryKey]int{}}
	r.n = mkSym("L"+r.id+":n", types.Typ[types.Int])
	seen := map[int]bool{}
	for _, k := range f.fi.liveIn[l.head] {
		if !seen[k] {
			seen[k] = true
			r.live = append(r.live, k)
		}
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := f.fi.num[ph]
		if !seen[k] {
			seen[k] = true
			r.live = append(r.live, k)
		}
	}
	sort.Ints(r.live)
	// registers that are dead here are forgotten
	env := make([]*Term, len(f.env))
	for _, k := range r.live {
		env[k] = f.env[k]
	}
	st.frames[len(st.frames)-1] = &frame{f.fi, env, f.ctx}
	r.base = st.clone()
	st.counters = append(st.counters, r.n)
	st.facts.addBound(r.n, new(big.Int), new(big.Int))
	entry := &arrival{st: st}

	e.quiet++
	parts := map[string]*part{}
	var keys []string
	var arrivals []*arrival
	arrivals = []*arrival{entry}
	stable := false
	stableRounds := 0
	for r.round = 0; r.round < 24; r.round++ {
		np := map[string]*part{}
		var nk []string
		groups := map[string][]*arrival{}
		for _, a := range arrivals {
			k := r.key(a.st)
			if _, ok := groups[k]; !ok {
				nk = append(nk, k)
			}
			groups[k] = append(groups[k], a)
		}
		sort.Strings(nk)
		if len(nk) > 120 {
			e.quiet--
			return undecided(st, l.head.Instrs[0].Pos(), l.head.Parent(), "too many loop partitions (%d)", len(nk))
		}
		changedClass := false
		for _, k := range nk {
			if r.classify(groups[k]) {
				changedClass = true
			}
		}
		// classes are global: settle them before joining
		for changedClass {
			changedClass = false
			for _, k := range nk {
				if r.classify(groups[k]) {
					changedClass = true
				}
			}
		}
		same := len(nk) == len(keys)
		for _, k := range nk {
			np[k] = r.join(k, groups[k], parts[k])
			if parts[k] == nil || parts[k].sig != np[k].sig {
				same = false
			}
		}
		if os.Getenv("LOOPTRACE") != "" {
			fmt.Fprintf(os.Stderr, "loop %s round %d parts %d same %v steps %d\n", r.id+" "+l.head.Parent().Name(), r.round, len(nk), same, e.steps)
			if os.Getenv("LOOPTRACE") == "2" {
				for _, k := range nk {
					fmt.Fprintf(os.Stderr, "  PART %s\n%s\n", k, np[k].sig)
				}
			}
		}
		parts, keys = np, nk
		if same {
			stableRounds++
			stable = true
			break
		}
		arrivals = []*arrival{entry}
		for _, k := range nk {
			p := parts[k]
			for _, x := range r.body(p) {
				if x.kind == "back" {
					arrivals = append(arrivals, r.shift(x, p))
				}
			}
			if e.steps > e.budget {
				break
			}
		}
		if e.steps > e.budget {
			break
		}
		_ = stableRounds
	}
	e.quiet--
	if !stable {
		return undecided(r.base, l.head.Instrs[0].Pos(), l.head.Parent(), "loop did not converge")
	}
	var res []exit
	for _, k := range keys {
		p := parts[k]
		for _, x := range r.body(p) {
			if x.kind == "back" {
				if e.onBack != nil && e.quiet == 0 {
					e.onBack(l.head, p.st, x.st)
				}
				continue
			}
			if x.kind == "out" || x.kind == "ret" {
				x = r.finish(x, p)
			}
			res = append(res, x)
		}
	}
	return res
}

// body runs one round from a head partition.
func (r *loopRun) body(p *part) []exit {
	st := p.st.clone()
	first := 0
	for first < len(r.l.head.Instrs) {
		if _, ok := r.l.head.Instrs[first].(*ssa.Phi); !ok {
			break
		}
		first++
	}
	exits := r.e.runBlock(st, r.l.head, first, r.l)
	for i := range exits {
		if exits[i].kind == "back" {
			r.e.setPhis(exits[i].st, exits[i].from, r.l.head)
		}
	}
	return exits
}

// ---- substitution over states ----

func (s *State) subst(m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	f := s.top()
	for i, v := range f.env {
		if v != nil {
			f.env[i] = substMap(v, m, memo)
		}
	}
	heap := make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		heap[substMap(k, m, memo)] = substMap(v, m, memo)
	}
	s.heap = heap
	fam := make([]famEntry, len(s.fam))
	for i, x := range s.fam {
		fam[i] = famEntry{substMap(x.key, m, memo), substMap(x.content, m, memo)}
	}
	s.fam = fam
	for k, v := range s.ghosts {
		s.ghosts[k] = substMap(v, m, memo)
	}
	s.facts = s.facts.subst(m, memo)
}

func (f *Facts) subst(m, memo map[*Term]*Term) *Facts {
	g := newFacts()
	for t, v := range f.truth {
		u := substMap(t, m, memo)
		vv := v
		for u.op == "not" {
			u = u.args[0]
			vv = !vv
		}
		if u.op == "true" || u.op == "false" {
			continue
		}
		g.truth[u] = vv
	}
	for b, iv := range f.bounds {
		g.addBound(substMap(b, m, memo), iv.lo, iv.hi)
	}
	for t, c := range f.sconst {
		g.sconst[substMap(t, m, memo)] = c
	}
	for t := range f.univ {
		g.univ[substMap(t, m, memo)] = true
	}
	return g
}

// loopSyms finds this loop's symbols in a state.
func (r *loopRun) renameMap(st *State, to func(*Term) *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	pre := "L" + r.id + ":"
	memo := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if memo[t] {
			return
		}
		memo[t] = true
		if !t.hasSym(pre) {
			return
		}
		if t.op == "sym" && strings.HasPrefix(t.s, pre) && len(t.args) == 0 {
			m[t] = to(t)
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, v := range st.top().env {
		if v != nil {
			visit(v)
		}
	}
	for k, v := range st.heap {
		visit(k)
		visit(v)
	}
	for _, x := range st.fam {
		visit(x.key)
		visit(x.content)
	}
	for _, v := range st.ghosts {
		visit(v)
	}
	for t := range st.facts.truth {
		visit(t)
	}
	for t := range st.facts.bounds {
		visit(t)
	}
	for t := range st.facts.sconst {
		visit(t)
	}
	for t := range st.facts.univ {
		visit(t)
	}
	return m
}

const oldPrefix = "LOLD:"

func isOld(t *Term) bool { return t.hasSym(oldPrefix) }

// shift expresses a state at a back edge over the counter of the round that begins.
func (r *loopRun) shift(x exit, p *part) *arrival {
	st := x.st
	f := st.top()
	env := make([]*Term, len(f.env))
	for _, k := range r.live {
		env[k] = f.env[k]
	}
	st.frames[len(st.frames)-1] = &frame{f.fi, env, f.ctx}
	m := r.renameMap(st, func(t *Term) *Term {
		if t == r.n {
			return tAddC(r.n, -1)
		}
		return mk("sym", oldPrefix+t.s, t.typ, nil, nil, nil)
	})
	m[r.n] = tAddC(r.n, -1)
	st.subst(m)
	return &arrival{st: st, src: p}
}

// ---- slots ----

type slotVal struct {
	name string
	v    *Term
	typ  types.Type
}

func (r *loopRun) slots(st *State) []slotVal {
	var res []slotVal
	f := st.top()
	for _, k := range r.live {
		v := f.env[k]
		if v == nil {
			continue
		}
		res = append(res, slotVal{fmt.Sprintf("r%d", k), v, r.fi.vals[k].Type()})
	}
	var ks []*Term
	for k := range r.base.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		res = append(res, slotVal{fmt.Sprintf("h%d", k.id), st.content(k), heapType(k)})
	}
	var gs []string
	for g := range st.ghosts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		v := st.ghosts[g]
		res = append(res, slotVal{"g" + g, v, termType(v)})
	}
	return res
}

func isErrSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := sl.Elem().(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (r *loopRun) key(st *State) string {
	var b strings.Builder
	for _, s := range r.slots(st) {
		v := s.v
		tag := ""
		switch {
		case v.op == "true" || v.op == "false":
			tag = v.op
		case v.op == "str" && v.s != "":
			m := r.strvals[s.name]
			if m == nil {
				m = map[string]bool{}
				r.strvals[s.name] = m
			}
			if len(m) < 10 {
				m[v.s] = true
			}
			if m[v.s] {
				tag = v.s
			}
		case isErrSlice(s.typ):
			switch {
			case v.op == "nil" || st.facts.isNil(v):
				tag = "0"
			default:
				tag = "?"
				if v.op == "slice" && v.s == "" {
					tag = "1"
				} else if lo, _ := st.facts.rng(mkLen(v)); lo != nil && lo.Sign() > 0 {
					tag = "1"
				}
			}
		case pointerLike(s.typ):
			if v.op == "nil" || st.facts.isNil(v) {
				tag = "0"
			} else if st.facts.nonNil(v) {
				tag = "1"
			} else {
				tag = "?"
			}
		}
		if tag != "" {
			b.WriteString(s.name)
			b.WriteByte('=')
			b.WriteString(tag)
			b.WriteByte(';')
		}
	}
	if r.e.partsBy != nil {
		b.WriteString(r.e.partsBy(st))
	}
	return b.String()
}

// entry value of a slot
func (r *loopRun) cls(name string, v0 *Term, typ types.Type) *slotClass {
	c := r.class[name]
	if c == nil {
		c = &slotClass{v0: v0, typ: typ}
		r.class[name] = c
		r.order = append(r.order, name)
	}
	return c
}

func (r *loopRun) entryVal(name string) *Term {
	if r.class[name] != nil {
		return r.class[name].v0
	}
	return nil
}

// comps expands a slot into the components that are generalised one by one.
func (r *loopRun) expand(st *State, s slotVal, f func(slotVal)) {
	if s.typ != nil {
		if _, ok := s.typ.Underlying().(*types.Slice); ok {
			if s.v.op == "slice" || s.v.op == "nil" {
				f(slotVal{s.name + "#", st.seqOf(s.v), s.typ})
				return
			}
		}
	}
	f(s)
}

func (r *loopRun) entrySlots() map[string]slotVal {
	m := map[string]slotVal{}
	for _, s := range r.slots(r.base) {
		m[s.name] = s
	}
	return m
}

// classify lowers slot classes that the arrivals contradict; true when something changed.
func (r *loopRun) classify(as []*arrival) bool {
	changed := false
	es := r.entrySlots()
	for _, a := range as {
		if a.src == nil {
			continue
		}
		for _, s := range r.slots(a.st) {
			e0, ok := es[s.name]
			if !ok {
				e0 = slotVal{s.name, tNil, s.typ}
			}
			if s.v == e0.v {
				continue
			}
			name, v, v0 := s.name, s.v, e0.v
			if isSliceSlot(s, e0) {
				name, v, v0 = s.name+"#", a.st.seqOf(s.v), r.base.seqOf(e0.v)
				if v == v0 {
					continue
				}
			}
			c := r.cls(name, v0, s.typ)
			switch c.kind {
			case "opaque":
			case "":
				c.kind = r.firstClass(a, name, v, v0, c)
				changed = true
			case "line":
				d := tSub(v, tAdd(v0, tScale(r.n, c.d)))
				if a.st.facts.eval(mkEq0(d)) != 1 {
					c.kind = "opaque"
					changed = true
				}
			case "acc":
				if r.accPiece(name, v, c) == nil {
					c.kind = "opaque"
					changed = true
				}
			case "fill":
				if r.fillPiece(a, name, v, c) == nil {
					c.kind = "opaque"
					changed = true
				}
			case "substr":
				if !r.substrOK(a, v, c) {
					c.kind = "opaque"
					changed = true
				}
			}
		}
	}
	return changed
}

func isSliceSlot(s, e0 slotVal) bool {
	if s.typ == nil {
		return false
	}
	if _, ok := s.typ.Underlying().(*types.Slice); !ok {
		return false
	}
	ok := func(t *Term) bool { return t.op == "slice" || t.op == "nil" }
	return strings.HasPrefix(s.name, "r") && ok(s.v) && ok(e0.v) || strings.HasPrefix(s.name, "h") && ok(s.v) && ok(e0.v)
}

func isSeqTerm(t *Term) bool {
	switch t.op {
	case "seq", "scat", "sslice", "smap", "supd":
		return true
	}
	return false
}

func (r *loopRun) firstClass(a *arrival, name string, v, v0 *Term, c *slotClass) string {
	if v.isInt() && v0.isInt() {
		lo, hi := a.st.facts.rng(r.n)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Sign() > 0 {
			// the distance covered so far must be a whole multiple of the rounds
			dl, dh := a.st.facts.rng(tSub(v, v0))
			if dl != nil && dh != nil && dl.Cmp(dh) == 0 && lo.IsInt64() && dl.IsInt64() && dl.Int64()%lo.Int64() == 0 {
				c.d = dl.Int64() / lo.Int64()
				if c.d != 0 {
					return "line"
				}
			}
		}
		return "opaque"
	}
	if isSeqTerm(v) && (isSeqTerm(v0) || strings.HasSuffix(name, "#")) || isSeqTerm(v) && v0.op == "sym" || v.op == "scat" {
		if r.accPiece(name, v, c) != nil {
			return "acc"
		}
	}
	if v.op == "supd" && v.args[0] == v0 && isSeqTerm(v0) && !strings.HasSuffix(name, "#") {
		at := r.n
		if lo, hi := a.st.facts.rng(r.n); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			at = mkBig(lo)
		}
		off := tSub(subst(v.args[1], r.n, at), tAddC(at, -1))
		if !off.hasSym("L"+r.id) && !off.hasSym(r.n.s) && !isOld(off) {
			c.off = off
			if r.fillPiece(a, name, v, c) != nil {
				return "fill"
			}
		}
	}
	if v.op == "substr" && (v0.op == "str" && v0.s == "") {
		d := tSub(v.args[2], r.n)
		if !d.hasSym("L"+r.id) && !isOld(d) {
			c.base = v.args[0]
			c.end = tAdd(d, r.n)
			return "substr"
		}
		// n pinned: express the end by it
		lo, hi := a.st.facts.rng(r.n)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			if dl, dh := a.st.facts.rng(d); dl != nil && dh != nil && dl.Cmp(dh) == 0 {
				c.base = v.args[0]
				c.end = tAdd(mkBig(dl), r.n)
				return "substr"
			}
		}
	}
	return "opaque"
}

// accPiece: v = v0 ++ ACC_old ++ piece.
func (r *loopRun) accPiece(name string, v *Term, c *slotClass) *Term {
	if v == c.v0 {
		return mkSeq()
	}
	old := mk("sym", oldPrefix+"L"+r.id+":"+name, accType(c.typ), nil, nil, nil)
	var parts []*Term
	if v.op == "scat" {
		parts = v.args
	} else {
		parts = []*Term{v}
	}
	i := 0
	switch {
	case c.v0.op == "seq" && len(c.v0.args) == 0:
	case c.v0.op == "scat":
		b := c.v0.args
		if len(parts) < len(b) {
			return nil
		}
		for j := range b {
			if parts[j] == b[j] {
				continue
			}
			// the last literal run may have grown
			if j == len(b)-1 && b[j].op == "seq" && parts[j].op == "seq" && prefixSeq(b[j], parts[j]) {
				rest := mkSeq(parts[j].args[len(b[j].args):]...)
				return r.accRest(append([]*Term{rest}, parts[j+1:]...), old)
			}
			return nil
		}
		i = len(b)
	case parts[0] == c.v0:
		i = 1
	case c.v0.op == "seq" && parts[0].op == "seq" && prefixSeq(c.v0, parts[0]):
		rest := mkSeq(parts[0].args[len(c.v0.args):]...)
		return r.accRest(append([]*Term{rest}, parts[1:]...), old)
	default:
		return nil
	}
	return r.accRest(parts[i:], old)
}

// fillTerm: a list that was v0 and in which k rounds have each written one
// position, from off on.
func fillTerm(c *slotClass, acc, k *Term) *Term {
	return mkScat(mkSslice(c.v0, mkInt(0), c.off), acc, mkSslice(c.v0, tAdd(c.off, k), mkLen(c.v0)))
}

// fillPiece: what this round left in its position; nil if it wrote elsewhere.
func (r *loopRun) fillPiece(a *arrival, name string, v *Term, c *slotClass) *Term {
	at := tAdd(c.off, tAddC(r.n, -1))
	old := mk("sym", oldPrefix+"L"+r.id+":"+name, accType(c.typ), nil, nil, nil)
	before := fillTerm(c, old, tAddC(r.n, -1))
	was := func(t *Term) bool { return t == before || t == c.v0 && a.st.facts.eval(mkEq0(tAddC(r.n, -1))) == 1 }
	if was(v) {
		if a.st.facts.eval(mkLt0(tSub(at, mkLen(c.v0)))) != 1 {
			return nil
		}
		return mkSeq(mkElem(c.v0, at, nil))
	}
	if v.op == "supd" && was(v.args[0]) && a.st.facts.eval(mkEq0(tSub(v.args[1], at))) == 1 {
		return mkSeq(v.args[2])
	}
	return nil
}

func (r *loopRun) accRest(rest []*Term, old *Term) *Term {
	// an empty leading literal may stand before the accumulator
	for len(rest) > 0 && rest[0].op == "seq" && len(rest[0].args) == 0 {
		rest = rest[1:]
	}
	if len(rest) > 0 && rest[0] == old {
		rest = rest[1:]
	} else if len(rest) > 0 {
		for _, x := range rest {
			if x == old {
				return nil
			}
		}
	}
	return mkScat(rest...)
}

func prefixSeq(a, b *Term) bool {
	if len(a.args) > len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

func accType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return t
	}
	return nil
}

func (r *loopRun) substrOK(a *arrival, v *Term, c *slotClass) bool {
	if v.op == "str" && v.s == "" {
		return true
	}
	if v.op != "substr" || v.args[0] != c.base {
		return false
	}
	return a.st.facts.eval(mkEq0(tSub(v.args[2], c.end))) == 1
}

// ---- join ----

type binding struct {
	sym    *Term
	actual []*Term // per arrival
	typ    types.Type
	slot   string
	kind   string
}

func (r *loopRun) join(key string, as []*arrival, prev *part) *part {
	p := &part{key: key, pieces: map[string]map[*Term]*pieceInfo{}}
	st := r.base.clone()
	st.counters = append(st.counters, r.n)
	st.facts = r.base.facts.clone()
	p.st = st
	es := r.entrySlots()
	var binds []*binding

	vals := make([]map[string]slotVal, len(as))
	var names []string
	have := map[string]bool{}
	for i, a := range as {
		vals[i] = map[string]slotVal{}
		for _, s := range r.slots(a.st) {
			vals[i][s.name] = s
			if !have[s.name] {
				have[s.name] = true
				names = append(names, s.name)
			}
		}
	}
	sort.Strings(names)
	put := func(name string, v *Term) {
		switch name[0] {
		case 'r':
			var k int
			fmt.Sscanf(name[1:], "%d", &k)
			st.top().env[k] = v
		case 'h':
			var id int
			fmt.Sscanf(name[1:], "%d", &id)
			st.heap[terms[id]] = v
		case 'g':
			st.ghosts[name[1:]] = v
		}
	}
	// generalise one component
	gen := func(name string, vs []*Term, v0 *Term, typ types.Type) *Term {
		allSame := true
		for _, v := range vs {
			if v != vs[0] {
				allSame = false
			}
		}
		if allSame && vs[0] == v0 {
			return v0
		}
		c := r.cls(name, v0, typ)
		if c.kind == "" {
			c.kind = "opaque"
		}
		switch c.kind {
		case "line":
			return tAdd(v0, tScale(r.n, c.d))
		case "fill":
			acc := r.sym(name, accType(typ))
			b := &binding{sym: acc, slot: name, kind: "acc", typ: typ}
			m := map[*Term]*pieceInfo{}
			p.pieces[name] = m
			old := mk("sym", oldPrefix+acc.s, acc.typ, nil, nil, nil)
			for i, a := range as {
				if a.src == nil {
					b.actual = append(b.actual, mkSeq())
					continue
				}
				pc := r.fillPiece(a, name, vs[i], c)
				if pc == nil {
					pc = mkFn("anyseq", nil, r.n)
				}
				r.addPiece(m, a, pc)
				for q, g := range a.src.pieces[name] {
					if had, ok := m[q]; ok {
						m[q] = had.merge(g)
					} else {
						m[q] = g
					}
				}
				if vs[i].contains(old) {
					pc = mkScat(old, pc)
				}
				b.actual = append(b.actual, pc)
			}
			binds = append(binds, b)
			return fillTerm(c, acc, r.n)
		case "acc":
			acc := r.sym(name, accType(typ))
			b := &binding{sym: acc, slot: name, kind: "acc", typ: typ}
			m := map[*Term]*pieceInfo{}
			p.pieces[name] = m
			allUnit := true
			for i, a := range as {
				pc := r.accPiece(name, vs[i], c)
				if pc == nil {
					pc = mkFn("anyseq", nil, r.n)
				}
				if a.src != nil {
					r.addPiece(m, a, pc)
					for q, g := range a.src.pieces[name] {
						if old, ok := m[q]; ok {
							m[q] = old.merge(g)
						} else {
							m[q] = g
						}
					}
				}
				// the accumulator itself, in the arrival's vocabulary
				var act *Term
				if c.v0.op == "seq" && len(c.v0.args) == 0 {
					act = vs[i]
				} else {
					old := mk("sym", oldPrefix+acc.s, acc.typ, nil, nil, nil)
					if vs[i].contains(old) {
						act = mkScat(old, pc)
					} else {
						act = pc
					}
				}
				b.actual = append(b.actual, act)
			}
			_ = allUnit
			binds = append(binds, b)
			return mkScat(c.v0, acc)
		case "substr":
			allEmpty := true
			for _, v := range vs {
				if !(v.op == "str" && v.s == "") {
					allEmpty = false
				}
			}
			if allEmpty {
				return mkStr("")
			}
			sg := r.sym(name, types.Typ[types.Int])
			b := &binding{sym: sg, slot: name, kind: "lo", typ: types.Typ[types.Int]}
			for _, v := range vs {
				if v.op == "substr" {
					b.actual = append(b.actual, v.args[1])
				} else {
					b.actual = append(b.actual, c.end)
				}
			}
			binds = append(binds, b)
			return mkSubstr(c.base, sg, c.end)
		}
		if allSame && !isOld(vs[0]) && !vs[0].hasSym("L"+r.id) {
			return vs[0]
		}
		if typ == nil {
			typ = termType(vs[0])
		}
		s := r.sym(name, typ)
		b := &binding{sym: s, slot: name, kind: "opaque", typ: typ}
		b.actual = append(b.actual, vs...)
		binds = append(binds, b)
		return s
	}
	for _, name := range names {
		e0, ok := es[name]
		if !ok {
			e0 = slotVal{name, tNil, nil}
		}
		var vs []*Term
		for i := range as {
			s, ok := vals[i][name]
			if !ok {
				s = slotVal{name, tNil, e0.typ}
			}
			vs = append(vs, s.v)
			if e0.typ == nil {
				e0.typ = s.typ
			}
		}
		allSame := true
		for _, v := range vs {
			if v != vs[0] {
				allSame = false
			}
		}
		if allSame && vs[0] == e0.v {
			put(name, vs[0])
			continue
		}
		if allSame && (vs[0].op == "nil" || vs[0].op == "true" || vs[0].op == "false" || vs[0].op == "str") {
			put(name, vs[0])
			continue
		}
		slice := e0.typ != nil && (e0.v.op == "slice" || e0.v.op == "nil")
		if slice {
			_, slice = e0.typ.Underlying().(*types.Slice)
		}
		if slice {
			for _, v := range vs {
				if v.op != "slice" && v.op != "nil" {
					slice = false
				}
			}
		}
		if slice {
			var seqs []*Term
			flag := ""
			for i, v := range vs {
				seqs = append(seqs, as[i].st.seqOf(v))
				if v.op == "nil" || v.s == "?" {
					flag = "?"
				}
			}
			t := gen(name+"#", seqs, r.base.seqOf(e0.v), e0.typ)
			o := mkObj("L"+r.id+":"+name, e0.typ, r.base.counters...)
			st.heap[o] = t
			put(name, mk("slice", flag, nil, nil, nil, nil, o, mkInt(0), mkLen(t)))
			continue
		}
		put(name, gen(name, vs, e0.v, e0.typ))
	}
	// objects made by earlier rounds
	r.families(st, as)
	// facts
	r.joinFacts(p, as, binds, prev)
	p.sig = r.signature(p)
	return p
}

// pin: in a round whose number is known, an index equal to it is the round's.
func (r *loopRun) pin(a *arrival) func(*Term) *Term {
	lo, hi := a.st.facts.rng(r.n)
	if lo == nil || hi == nil || lo.Cmp(hi) != 0 {
		return func(t *Term) *Term { return t }
	}
	k := mkBig(new(big.Int).Sub(lo, big.NewInt(1)))
	return func(t *Term) *Term {
		m := map[*Term]*Term{}
		walk(t, func(x *Term) bool {
			if x.op == "elem" && x.args[1] == k {
				m[x] = mkElem(x.args[0], kappa, x.typ)
			}
			return true
		})
		if len(m) == 0 {
			return t
		}
		return substMap(t, m, map[*Term]*Term{})
	}
}

// addPiece records what one round appended, over κ, with the facts of the path that appended it.
func (r *loopRun) addPiece(m map[*Term]*pieceInfo, a *arrival, pc *Term) {
	up := map[*Term]*Term{r.n: tAddC(kappa, 1)}
	memo := map[*Term]*Term{}
	pin := r.pin(a)
	q := pin(substMap(pc, up, memo))
	if isOld(q) || q.hasSym("L"+r.id) {
		q = mkFn("anyseq", nil, kappa)
	}
	var guards []*Term
	for _, t := range a.st.facts.sortedTruth() {
		if _, ok := r.base.facts.truth[t]; ok {
			continue
		}
		if isOld(t) || t.hasSym("L"+r.id+":") && !onlyN(t, r.n) {
			continue
		}
		g := substMap(t, up, memo)
		if !a.st.facts.truth[t] {
			g = mkNot(g)
		}
		guards = append(guards, g)
		if pg := pin(g); pg != g {
			guards = append(guards, pg)
		}
		guards = append(guards, r.shifted(a, t)...)
	}
	// the rounds in which the piece is appended
	one := big.NewInt(1)
	lo, hi := a.st.facts.rng(r.n)
	if lo != nil && lo.Cmp(one) > 0 && lo.Cmp(big.NewInt(1<<16)) < 0 {
		guards = append(guards, mkNot(mkLt0(tSub(kappa, mkBig(new(big.Int).Sub(lo, one))))))
	}
	if hi != nil && hi.Cmp(big.NewInt(1<<16)) < 0 {
		guards = append(guards, mkNot(mkLt0(tSub(mkBig(new(big.Int).Sub(hi, one)), kappa))))
	}
	info := &pieceInfo{guards: guards, pins: []pinned{{tAddC(r.n, -1), a.st.facts}}}
	if old, ok := m[q]; ok {
		m[q] = old.merge(info)
	} else {
		m[q] = info
	}
}

// shifted: in a round whose number is known to be k, a condition over quantities the loop does not change is
// also a condition on the round: l < 0 holds there exactly when l ± (κ-k) < 0 does.
func (r *loopRun) shifted(a *arrival, t *Term) []*Term {
	if t.op != "lt0" && t.op != "eq0" || t.hasSym(r.n.s) {
		return nil
	}
	lo, hi := a.st.facts.rng(r.n)
	if lo == nil || hi == nil || lo.Cmp(hi) != 0 {
		return nil
	}
	d := tSub(kappa, mkBig(new(big.Int).Sub(lo, big.NewInt(1))))
	var gs []*Term
	for _, s := range []int64{1, -1} {
		l := tAdd(t.args[0], tScale(d, s))
		g := mkLt0(l)
		if t.op == "eq0" {
			g = mkEq0(l)
		}
		if !a.st.facts.truth[t] {
			g = mkNot(g)
		}
		gs = append(gs, g)
	}
	return gs
}

func onlyN(t, n *Term) bool {
	for k := range t.syms {
		if k != n.s && strings.HasPrefix(k, "L"+strings.TrimSuffix(n.s[1:], ":n")+":") {
			return false
		}
	}
	return true
}

func (r *loopRun) families(st *State, as []*arrival) {
	type fe struct {
		content *Term
		bad     bool
	}
	got := map[*Term]*fe{}
	var order []*Term
	for _, a := range as {
		pin := r.pin(a)
		for k, v := range a.st.heap {
			if !k.hasSym("L"+r.id+":") && !isOld(k) {
				continue
			}
			if isOld(k) {
				continue
			}
			key := subst(k, r.n, tAddC(kappa, 1))
			c := pin(subst(v, r.n, tAddC(kappa, 1)))
			if isOld(c) || c.hasSym("L"+r.id+":") {
				c = nil
			}
			x := got[key]
			if x == nil {
				got[key] = &fe{content: c, bad: c == nil}
				order = append(order, key)
			} else if x.content != c {
				x.bad = true
			}
		}
		for _, f := range a.st.fam[len(r.base.fam):] {
			if isOld(f.key) || f.key.hasSym("L"+r.id+":") {
				continue // objects of inner loops of earlier rounds
			}
			x := got[f.key]
			if x == nil {
				got[f.key] = &fe{content: f.content}
				order = append(order, f.key)
			} else if x.content != f.content {
				x.bad = true
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	st.fam = st.fam[:len(r.base.fam):len(r.base.fam)]
	for _, k := range order {
		c := got[k].content
		if got[k].bad || c == nil {
			if k.op == "obj" {
				c = mk("deref", "", k.typ, nil, nil, nil, k)
			} else {
				c = mkFn("unknowncontent", nil, k)
			}
		}
		st.fam = append(st.fam, famEntry{k, c})
	}
}

func (r *loopRun) joinFacts(p *part, as []*arrival, binds []*binding, prev *part) {
	H := p.st.facts
	// the counter
	var nlo, nhi *big.Int
	for i, a := range as {
		lo, hi := a.st.facts.rng(r.n)
		if a.src != nil {
			lo = maxB(lo, big.NewInt(1))
		}
		if i == 0 {
			nlo, nhi = lo, hi
		} else {
			if nlo != nil && (lo == nil || lo.Cmp(nlo) < 0) {
				nlo = lo
			}
			if nhi != nil && (hi == nil || hi.Cmp(nhi) > 0) {
				nhi = hi
			}
		}
	}
	if r.round > 2 && nhi != nil && prev != nil {
		if _, ph := prev.st.facts.rng(r.n); ph == nil || ph.Cmp(nhi) != 0 {
			nhi = nil
		}
	}
	if r.round > 2 && prev == nil && nhi != nil && nhi.Cmp(big.NewInt(2)) > 0 {
		nhi = nil
	}
	if nlo != nil && nlo.Cmp(big.NewInt(3)) > 0 {
		nlo = big.NewInt(3)
	}
	H.addBound(r.n, nlo, nhi)

	// facts over n and loop-invariant terms
	a0 := as[0]
	for _, a := range as {
		if a.src != nil {
			a0 = a
			break
		}
	}
	for _, t := range a0.st.facts.sortedTruth() {
		if _, ok := H.truth[t]; ok {
			continue
		}
		if isOld(t) || t.hasSym("L"+r.id+":") && !onlyN(t, r.n) {
			continue
		}
		if t.op == "lt0" || t.op == "eq0" {
			continue // through bounds
		}
		v := a0.st.facts.truth[t]
		all := true
		for _, a := range as {
			x := a.st.facts.eval(t)
			if v && x != 1 || !v && x != -1 {
				all = false
				break
			}
		}
		if all {
			H.truth[t] = v
		}
	}
	for t, c := range a0.st.facts.sconst {
		if isOld(t) || t.hasSym("L"+r.id+":") {
			continue
		}
		all := true
		for _, a := range as {
			if a.st.facts.sconst[t] != c {
				all = false
			}
		}
		if all {
			H.sconst[t] = c
		}
	}
	hull := func(body *Term, actual func(i int) *Term) {
		var lo, hi *big.Int
		for i, a := range as {
			l, h := a.st.facts.rng(actual(i))
			if i == 0 {
				lo, hi = l, h
				continue
			}
			if lo != nil && (l == nil || l.Cmp(lo) < 0) {
				lo = l
			}
			if hi != nil && (h == nil || h.Cmp(hi) > 0) {
				hi = h
			}
		}
		// widening: only small constants survive
		if r.round > 1 && lo != nil && lo.Cmp(big.NewInt(2)) > 0 {
			lo = big.NewInt(2)
		}
		if r.round > 1 && lo != nil && lo.Cmp(big.NewInt(-2)) < 0 {
			lo = nil
		}
		if r.round > 1 && hi != nil && hi.Cmp(big.NewInt(2)) > 0 && hi.BitLen() < 60 {
			hi = nil
		}
		if r.round > 4 && prev != nil {
			pl, ph := prev.st.facts.rng(body)
			if lo != nil && (pl == nil || pl.Cmp(lo) < 0) {
				lo = pl
			}
			if lo != nil && pl != nil && pl.Cmp(lo) > 0 {
				lo = nil
			}
			if hi != nil && (ph == nil || ph.Cmp(hi) < 0) {
				hi = nil
			}
		}
		cl, ch := H.rng(body)
		if lo != nil && cl != nil && cl.Cmp(lo) >= 0 {
			lo = nil
		}
		if hi != nil && ch != nil && ch.Cmp(hi) <= 0 {
			hi = nil
		}
		if lo != nil || hi != nil {
			H.addBound(body, lo, hi)
		}
	}
	done := map[*Term]bool{}
	for _, a := range as {
		for _, b := range a.st.facts.sortedBounds() {
			if done[b] || b == r.n {
				continue
			}
			done[b] = true
			if isOld(b) || b.hasSym("L"+r.id+":") && !onlyN(b, r.n) {
				continue
			}
			if _, ok := r.base.facts.bounds[b]; ok && a.st.facts.bounds[b] == r.base.facts.bounds[b] {
				continue
			}
			bb := b
			hull(b, func(int) *Term { return bb })
		}
	}
	// facts about the unknowns
	for bi, b := range binds {
		b := b
		switch {
		case b.kind == "acc":
			hull(tSub(mkLen(b.sym), r.n), func(i int) *Term { return tSub(mkLen(b.actual[i]), r.n) })
			hull(mkLen(b.sym), func(i int) *Term { return mkLen(b.actual[i]) })
		case b.kind == "lo":
			hull(b.sym, func(i int) *Term { return b.actual[i] })
			c := r.class[b.slot]
			hull(tSub(c.end, b.sym), func(i int) *Term { return tSub(c.end, b.actual[i]) })
		case isIntType(b.typ):
			hull(b.sym, func(i int) *Term { return b.actual[i] })
			hull(tSub(b.sym, r.n), func(i int) *Term { return tSub(b.actual[i], r.n) })
			for _, o := range r.limits(as) {
				o := o
				hull(tSub(o, b.sym), func(i int) *Term { return tSub(o, b.actual[i]) })
			}
			for bj, o := range binds {
				if bj < bi && isIntType(o.typ) && o.kind != "acc" {
					o := o
					hull(tSub(o.sym, b.sym), func(i int) *Term { return tSub(o.actual[i], b.actual[i]) })
				}
				if o.kind == "acc" || o.kind == "opaque" && isSliceT(o.typ) {
					o := o
					hull(tSub(mkLen(o.sym), b.sym), func(i int) *Term { return tSub(mkLen(o.actual[i]), b.actual[i]) })
				}
			}
		case isSliceT(b.typ) || isStringType(b.typ):
			hull(mkLen(b.sym), func(i int) *Term { return mkLen(b.actual[i]) })
			if isSliceT(b.typ) {
				r.topFacts(H, as, b)
			}
		case pointerLike(b.typ):
			all, nils := true, true
			for i, a := range as {
				if !a.st.facts.nonNil(b.actual[i]) {
					all = false
				}
				if !a.st.facts.isNil(b.actual[i]) {
					nils = false
				}
			}
			if all {
				H.assume(mkEq(b.sym, tNil), false)
			}
			if nils {
				H.assume(mkEq(b.sym, tNil), true)
			}
		}
		// facts that hold of the value however it came about, stated on the unknown
		if b.kind == "opaque" && !isIntType(b.typ) && b.typ != nil {
			r.transfer(H, as, b)
		}
	}
	// what every round so far has established
	cands := map[*Term]bool{}
	first := true
	for _, a := range as {
		if a.src == nil {
			continue
		}
		mine := map[*Term]bool{}
		for _, t := range a.st.facts.sortedTruth() {
			if !t.hasSym("L"+r.id+":") || isOld(t) || !onlyN(t, r.n) {
				continue
			}
			pat := subst(t, r.n, tAddC(kappa, 1))
			s := "+"
			if !a.st.facts.truth[t] {
				s = "-"
			}
			u := mk("univ", s, nil, nil, nil, nil, mkInt(0), r.n, pat)
			// it must hold for the rounds before as well
			prevU := mk("univ", s, nil, nil, nil, nil, mkInt(0), tAddC(r.n, -1), pat)
			_, ph := a.src.st.facts.rng(r.n)
			if ph != nil && ph.Sign() == 0 || a.st.facts.univ[prevU] {
				mine[u] = true
			} else if r.round > 1 && (prev == nil || !prev.st.facts.univ[u]) && r.tried[tryKey{p.key, u}] < 2 {
				// a guess: it changes the partition, so the next round has to confirm it
				mine[u] = true
			}
		}
		if first {
			cands = mine
			first = false
		} else {
			for u := range cands {
				if !mine[u] {
					delete(cands, u)
				}
			}
		}
	}
	for u := range cands {
		H.univ[u] = true
		if prev == nil || !prev.st.facts.univ[u] {
			r.tried[tryKey{p.key, u}]++
		}
	}
}

type tryKey struct {
	part string
	u    *Term
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// limits are the loop-invariant quantities positions are compared with.
func (r *loopRun) limits(as []*arrival) []*Term {
	m := map[*Term]bool{}
	for _, a := range as {
		for b := range a.st.facts.bounds {
			if b.op != "lin" {
				continue
			}
			for _, x := range b.args {
				if !isOld(x) && !x.hasSym("L"+r.id+":") && (x.op == "len" || x.op == "sym") {
					m[x] = true
				}
			}
		}
	}
	var l []*Term
	for t := range m {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) > 12 {
		l = l[:12]
	}
	return l
}

// topFacts: what is known of the last element of a stack in every arrival.
func (r *loopRun) topFacts(H *Facts, as []*arrival, b *binding) {
	el := b.typ.Underlying().(*types.Slice).Elem()
	top := func(q *Term, st *State) *Term { return st.elem(q, tAddC(mkLen(q), -1), el) }
	hs := &State{facts: H}
	mine := top(b.sym, hs)
	var as2 []*arrival
	var qs []*Term
	for i, a := range as {
		if lo, _ := a.st.facts.rng(mkLen(b.actual[i])); lo == nil || lo.Sign() <= 0 {
			return
		}
		as2 = append(as2, a)
		qs = append(qs, b.actual[i])
	}
	if len(as2) == 0 {
		return
	}
	t0 := top(qs[0], as2[0].st)
	for _, t := range as2[0].st.facts.sortedTruth() {
		if !t.contains(t0) {
			continue
		}
		v := as2[0].st.facts.truth[t]
		all := true
		for i := 1; i < len(as2); i++ {
			x := as2[i].st.facts.eval(subst(t, t0, top(qs[i], as2[i].st)))
			if v && x != 1 || !v && x != -1 {
				all = false
				break
			}
		}
		nt := subst(t, t0, mine)
		if all && !isOld(nt) {
			H.assume(nt, v)
		}
	}
}

func (r *loopRun) transfer(H *Facts, as []*arrival, b *binding) {
	v0 := b.actual[0]
	if v0.op != "sym" && v0.op != "res" && v0.op != "proj" && v0.op != "elem" && v0.op != "fn" && v0.op != "unbox" {
		return
	}
	for _, t := range as[0].st.facts.sortedTruth() {
		if !t.contains(v0) {
			continue
		}
		v := as[0].st.facts.truth[t]
		all := true
		for i := 1; i < len(as); i++ {
			x := as[i].st.facts.eval(subst(t, v0, b.actual[i]))
			if v && x != 1 || !v && x != -1 {
				all = false
				break
			}
		}
		nt := subst(t, v0, b.sym)
		if all && !isOld(nt) {
			H.assume(nt, v)
		}
	}
}

func (r *loopRun) signature(p *part) string {
	var b strings.Builder
	for _, s := range r.slots(p.st) {
		fmt.Fprintf(&b, "%s=%d;", s.name, s.v.id)
		if s.v.op == "slice" {
			fmt.Fprintf(&b, "#%d;", p.st.seqOf(s.v).id)
		}
		if os.Getenv("LOOPTRACE") == "2" && p.st != nil {
			fmt.Fprintf(&b, "\n      %s = %s\n", s.name, s.v)
		}
	}
	f := p.st.facts
	for _, t := range f.sortedTruth() {
		fmt.Fprintf(&b, "t%d%v;", t.id, f.truth[t])
		if os.Getenv("LOOPTRACE") == "2" && !t.contains(tNil) {
			if _, ok := r.base.facts.truth[t]; !ok {
				fmt.Fprintf(&b, "\n      fact %v %s\n", f.truth[t], t)
			}
		}
	}
	for _, t := range f.sortedBounds() {
		iv := f.bounds[t]
		fmt.Fprintf(&b, "b%d[%v,%v];", t.id, iv.lo, iv.hi)
		if os.Getenv("LOOPTRACE") == "2" {
			if r.base.facts.bounds[t] != iv {
				fmt.Fprintf(&b, "\n      bound %s in [%v,%v]\n", t, iv.lo, iv.hi)
			}
		}
	}
	for _, t := range f.sortedUniv() {
		fmt.Fprintf(&b, "u%d;", t.id)
		if os.Getenv("LOOPTRACE") == "2" {
			fmt.Fprintf(&b, "\n      univ %s %s\n", t.s, t)
		}
	}
	var ks []string
	for k, m := range p.pieces {
		var ids []string
		for q, g := range m {
			ids = append(ids, fmt.Sprintf("%d/%d", q.id, len(g.guards)))
		}
		sort.Strings(ids)
		ks = append(ks, k+":"+strings.Join(ids, ","))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	for _, x := range p.st.fam {
		fmt.Fprintf(&b, "f%d=%d;", x.key.id, x.content.id)
	}
	return b.String()
}

// ---- leaving the loop ----

func (r *loopRun) finish(x exit, p *part) exit {
	st := x.st
	m := map[*Term]*Term{}
	for slot, ps := range p.pieces {
		c := r.class[slot]
		acc := r.sym(slot, accType(c.typ))
		var cs []smapCase
		for q, g := range ps {
			cs = append(cs, smapCase{q, g.guards})
		}
		m[acc] = mkSmap(mkInt(0), r.n, cs)
	}
	memo := map[*Term]*Term{}
	vals := func() {
		for i, v := range x.o.vals {
			x.o.vals[i] = substMap(v, m, memo)
		}
	}
	if len(m) > 0 {
		st.subst(m)
		x.o.vals = append([]*Term{}, x.o.vals...)
		vals()
	}
	// the number of rounds, when it is fixed
	for _, b := range st.facts.sortedBounds() {
		iv := st.facts.bounds[b]
		if iv.lo == nil || iv.hi == nil || iv.lo.Cmp(iv.hi) != 0 {
			continue
		}
		l := toLin(b)
		k := l.m[r.n]
		if k != 1 && k != -1 {
			continue
		}
		rest := tSub(b, tScale(r.n, k)) // k*n + rest = c
		if rest.hasSym("L" + r.id + ":") {
			continue
		}
		v := tScale(tSub(mkBig(iv.lo), rest), k)
		m = map[*Term]*Term{r.n: v}
		memo = map[*Term]*Term{}
		st.subst(m)
		x.o.vals = append([]*Term{}, x.o.vals...)
		vals()
		break
	}
	if len(r.base.counters) > 0 {
		m = r.renameMap(st, func(t *Term) *Term {
			return mkSymAt("X"+t.s, t.typ, r.base.counters...)
		})
		if len(m) > 0 {
			memo = map[*Term]*Term{}
			st.subst(m)
			x.o.vals = append([]*Term{}, x.o.vals...)
			vals()
		}
	}
	st.counters = st.counters[:len(r.base.counters):len(r.base.counters)]
	x.st = st
	return x
}
