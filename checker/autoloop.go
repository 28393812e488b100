package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reachable head states. A loop that is not an accumulation over a list (the parser's) is followed as an automaton:
// every state met at the loop head is put into a canonical form (flags and words keep their value, positions become
// symbols with their bounds, a text taken from the input stays a stretch of the input, a list is empty or has a last
// element of a known kind), states of equal form are one state, and the body is interpreted once for each of them
// until no new state appears.

const autoLimit = 400

type astate struct {
	n     int
	key   string
	st    *State
	from  *astate
	label string
}

type transition struct {
	from *astate
	x    exit
}

type autoPass struct {
	e       *Eng
	w       *World
	input   *Term
	tops    map[string]map[string]bool // list slot -> classes of its elements
	lows    map[string]int
	vary    map[string]bool
	strs    map[string]map[string]bool
	changed bool
	slots   map[string]string // loop -> the variable that holds its position
	nstates int
	ntrans  int
	// arrive sees a state before it is put into canonical form; from is nil on entry
	arrive func(lp *autoRun, from *astate, x exit, st *State) []*State
	leave  func(lp *autoRun, from *astate, x exit) []exit
	done   func(lp *autoRun)
	label  func(st *State) string
	begin  func(lp *autoRun)
	// step sees a state arriving at a head (it may divide it), edge the canonical state it became
	step func(lp *autoRun, from *astate, x exit, st *State)
	edge func(lp *autoRun, from, to *astate, st *State)
	// weak holds the symbols that stand for a number or a text whose value was given up: what a path finds out about
	// them may be impossible. In an exact pass small numbers keep their value; numbers that are only ever assigned
	// constants (modes) always do.
	weak  map[*Term]bool
	exact bool
	limit int
	// settle adds what is known of every canonical state by its ghosts
	settle func(st *State)
	// behind: an exact pass leaves the state for later
	behind func(st *State) bool
}

func newAuto(w *World, e *Eng) *autoPass {
	return &autoPass{e: e, w: w, tops: map[string]map[string]bool{}, lows: map[string]int{}, vary: map[string]bool{}, strs: map[string]map[string]bool{}, slots: map[string]string{}, weak: map[*Term]bool{}, limit: autoLimit}
}

// onWeak: the path found out something about a value that was given up.
func (a *autoPass) onWeak(from *Facts, st *State) bool {
	if len(a.weak) == 0 || from == nil {
		return false
	}
	weak := func(t *Term) bool { return contains(t, func(x *Term) bool { return a.weak[x] }) }
	for t, v := range st.facts.truth {
		if weak(t) {
			if e := from.eval(t); e == 0 || (e == 1) != v {
				return true
			}
		}
	}
	for t, bd := range st.facts.bounds {
		if weak(t) {
			lo, hi := from.rng(t)
			if bd.lo != nil && (lo == nil || bd.lo.Cmp(lo) > 0) || bd.hi != nil && (hi == nil || bd.hi.Cmp(hi) < 0) {
				return true
			}
		}
	}
	for t := range st.facts.sconst {
		if _, ok := from.sconst[t]; !ok && weak(t) {
			return true
		}
	}
	return false
}

const weakGhost = "weak"

// tell marks a state whose path looked at a value that was given up.
func (a *autoPass) tell(st *State) {
	if st != nil && a.onWeak(st.since, st) {
		st.ghosts[weakGhost] = mkStr("")
	}
}

type autoRun struct {
	a         *autoPass
	l         *loopInfo
	fi        *fnInfo
	id        string
	live      []int
	base      *State
	entryVals map[string]*Term
	stable    map[*Term]bool
	modes     map[string]bool
	states    []*astate
	trans     []transition
}

type splitReq struct{ alts []func(*State) bool }

func splitOn(c *Term) splitReq {
	return splitReq{[]func(*State) bool{
		func(s *State) bool { return s.facts.assume(c, true) },
		func(s *State) bool { return s.facts.assume(c, false) },
	}}
}

// trySplit runs f on a state; whenever f needs to know something undecided, the state is divided.
func trySplit(st *State, depth int, f func(st *State)) bool {
	var need *splitReq
	work := st.clone()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, ok := p.(splitReq); ok {
					need = &s
					return
				}
				panic(p)
			}
		}()
		f(work)
	}()
	if need == nil {
		return true
	}
	if depth > 60 {
		return false
	}
	ok := true
	for _, alt := range need.alts {
		s := st.clone()
		if alt(s) {
			ok = trySplit(s, depth+1, f) && ok
		}
	}
	return ok
}

// ask decides a condition, dividing the state when it is open.
func ask(st *State, c *Term) bool {
	switch st.facts.eval(c) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(splitOn(c))
}

func (a *autoPass) runLoop(st *State, l *loopInfo) []exit {
	e := a.e
	f := st.top()
	e.loopsSeen[l.head]++
	lp := &autoRun{a: a, l: l, fi: f.fi, id: f.ctx + "b" + fmt.Sprint(l.head.Index)}
	seen := map[int]bool{}
	for _, k := range f.fi.liveIn[l.head] {
		if !seen[k] {
			seen[k] = true
			lp.live = append(lp.live, k)
		}
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k := f.fi.num[ph]; !seen[k] {
			seen[k] = true
			lp.live = append(lp.live, k)
		}
	}
	sort.Ints(lp.live)
	env := make([]*Term, len(f.env))
	for _, k := range lp.live {
		env[k] = f.env[k]
	}
	st.frames[len(st.frames)-1] = &frame{f.fi, env, f.ctx}
	a.tell(st)
	lp.base = st.clone()
	lp.stable = map[*Term]bool{}
	lp.entryVals = map[string]*Term{}
	lp.each(lp.base, func(slot string, v *Term, t types.Type) { lp.entryVals[slot] = v })
	mark := func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.op == "sym" || x.op == "obj" {
				lp.stable[x] = true
			}
			return true
		})
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			if v != nil {
				mark(v)
			}
		}
	}
	for k, v := range st.heap {
		mark(k)
		mark(v)
	}
	for _, v := range st.ghosts {
		mark(v)
	}
	if a.input != nil {
		mark(a.input)
	}
	first := 0
	for first < len(l.head.Instrs) {
		if _, ok := l.head.Instrs[first].(*ssa.Phi); !ok {
			break
		}
		first++
	}
	var open []exit
	for round := 0; round < 12; round++ {
		a.changed = false
		lp.states, lp.trans = nil, nil
		index := map[string]*astate{}
		bad := ""
		if a.begin != nil {
			a.begin(lp)
		}
		add := func(from *astate, x exit, st *State) {
			arr := []*State{st}
			if a.arrive != nil {
				arr = a.arrive(lp, from, x, st)
			}
			for _, s := range arr {
				if !trySplit(s, 0, func(s *State) {
					if a.step != nil {
						a.step(lp, from, x, s)
					}
					key, c := lp.canon(s, from)
					if index[key] != nil {
						if a.edge != nil && from != nil {
							a.edge(lp, from, index[key], s)
						}
						return
					}
					as := &astate{n: len(lp.states), key: key, st: c, from: from}
					if from != nil && a.label != nil {
						as.label = a.label(s)
					}
					index[key] = as
					lp.states = append(lp.states, as)
					if a.edge != nil && from != nil {
						a.edge(lp, from, as, s)
					}
				}) {
					bad = "a loop state cannot be put into canonical form"
				}
			}
		}
		add(nil, exit{}, st.clone())
		skipped := 0
		expanded := map[*astate]bool{}
		for {
			s := lp.next(expanded)
			if s == nil {
				break
			}
			expanded[s] = true
			if a.exact && s.st.ghosts[weakGhost] != nil {
				skipped++
				continue
			}
			exits := e.runBlock(s.st.clone(), l.head, first, l)
			for _, x := range exits {
				if x.st != nil {
					a.tell(x.st)
				}
				if x.kind == "back" {
					e.setPhis(x.st, x.from, l.head)
					if os.Getenv("LOOPTRACE") == "3" && x.st.ghosts["events"] != nil {
						fmt.Fprintf(os.Stderr, "  EVENTS from %d: %s\n", s.n, x.st.ghosts["events"])
					}
					lp.trans = append(lp.trans, transition{s, exit{kind: x.kind, from: x.from, to: x.to, o: x.o, st: x.st.clone()}})
					add(s, x, x.st)
				} else {
					lp.trans = append(lp.trans, transition{s, x})
				}
			}
			if e.steps > e.budget || len(lp.states) > a.limit {
				if os.Getenv("LOOPTRACE") == "2" {
					for i, s := range lp.states {
						if i > 60 {
							break
						}
						fn := -1
						if s.from != nil {
							fn = s.from.n
						}
						fmt.Fprintf(os.Stderr, "  STATE %d from %d %s: %s\n", s.n, fn, s.label, s.key)
					}
				}
				// what was met so far can happen; there may be more
				for _, t := range lp.trans {
					if t.x.kind != "back" && len(open) < 4000 {
						open = append(open, t.x)
					}
				}
				return append(open, undecided(lp.base, l.head.Instrs[0].Pos(), l.head.Parent(), "too many loop states (%d)", len(lp.states))...)
			}
		}
		if os.Getenv("LOOPTRACE") != "" {
			fmt.Fprintf(os.Stderr, "auto loop %s %s round %d: %d states %d transitions steps %d changed %v\n", lp.id, l.head.Parent().Name(), round, len(lp.states), len(lp.trans), e.steps, a.changed)
			if os.Getenv("LOOPTRACE") == "2" {
				for _, s := range lp.states {
					fn := -1
					if s.from != nil {
						fn = s.from.n
					}
					fmt.Fprintf(os.Stderr, "  STATE %d from %d %s: %s\n", s.n, fn, s.label, s.key)
				}
			}
		}
		if bad == "" && skipped > 0 {
			bad = fmt.Sprintf("%d loop states rest on values given up", skipped)
			if !a.changed {
				for _, t := range lp.trans {
					if t.x.kind != "back" {
						open = append(open, t.x)
					}
				}
				return append(open, undecided(lp.base, l.head.Instrs[0].Pos(), l.head.Parent(), "%s", bad)...)
			}
			bad = ""
		}
		if bad != "" {
			return undecided(lp.base, l.head.Instrs[0].Pos(), l.head.Parent(), "%s", bad)
		}
		if !a.changed {
			break
		}
		if round == 11 {
			return undecided(lp.base, l.head.Instrs[0].Pos(), l.head.Parent(), "loop did not converge")
		}
	}
	if a.done != nil {
		a.done(lp)
	}
	a.nstates += len(lp.states)
	a.ntrans += len(lp.trans)
	var res []exit
	for _, t := range lp.trans {
		if t.x.kind == "back" {
			continue
		}
		xs := []exit{t.x}
		if a.leave != nil && (t.x.kind == "out" || t.x.kind == "ret") {
			xs = a.leave(lp, t.from, t.x)
		}
		res = append(res, xs...)
	}
	return res
}

// next is the state to follow next: those on which an error is already noted come last.
func (lp *autoRun) next(seen map[*astate]bool) *astate {
	var late *astate
	for _, s := range lp.states {
		if seen[s] {
			continue
		}
		if !lp.a.exact || lp.a.behind == nil || !lp.a.behind(s.st) {
			return s
		}
		if late == nil {
			late = s
		}
	}
	return late
}

// trace is one way to reach a state, as the bytes taken.
func (s *astate) trace() string {
	var ls []string
	for x := s; x != nil; x = x.from {
		if x.label != "" {
			ls = append(ls, x.label)
		}
	}
	for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
		ls[i], ls[j] = ls[j], ls[i]
	}
	return strings.Join(ls, " ")
}

// ---- slots ----

func (lp *autoRun) regName(k int) string {
	v := lp.fi.vals[k]
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment + "." + v.Name()
	}
	return v.Name()
}

// cells that exist on entry, in a fixed order
func (lp *autoRun) cells() []*Term {
	var ks []*Term
	for k := range lp.base.heap {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// each visits the loop's variables: live registers and the cells that existed on entry.
func (lp *autoRun) each(st *State, f func(slot string, v *Term, t types.Type)) {
	fr := st.top()
	for _, k := range lp.live {
		if fr.env[k] != nil {
			f(lp.regName(k), fr.env[k], lp.fi.vals[k].Type())
		}
	}
	for _, k := range lp.cells() {
		if v := st.heap[k]; v != nil {
			f(fmt.Sprintf("*%d", k.id), v, heapType(k))
		}
	}
}

// ---- canonical form ----

type canoner struct {
	lp    *autoRun
	st    *State
	out   *State
	key   strings.Builder
	memo  map[*Term]*Term
	idx   []*Term // canonical positions with the value each stands for
	idxv  []*Term
	pos   []*Term // every canonical position that is not a counter
	posv  []*Term
	busy  map[*Term]bool
	entry bool
	// fields of structs that are only given constants
	modeSlots map[string]bool
}

func (lp *autoRun) canon(st *State, from *astate) (string, *State) {
	entry := from == nil
	c := &canoner{lp: lp, st: st, entry: entry, memo: map[*Term]*Term{}, busy: map[*Term]bool{}}
	out := lp.base.clone()
	out.ghosts = map[string]*Term{}
	c.out = out
	fr := st.top()
	env := make([]*Term, len(fr.env))
	out.frames[len(out.frames)-1] = &frame{lp.fi, env, fr.ctx}
	baseEnv := lp.base.top().env
	type job struct {
		slot string
		v    *Term
		t    types.Type
		put  func(*Term)
	}
	var ints, rest []job
	addJob := func(j job) {
		if j.t != nil && isIntType(j.t) {
			ints = append(ints, j)
		} else {
			rest = append(rest, j)
		}
	}
	for _, k := range lp.live {
		k := k
		v := fr.env[k]
		if v == nil {
			continue
		}
		if v == baseEnv[k] && !isIntType(lp.fi.vals[k].Type()) {
			env[k] = v
			c.key.WriteString(lp.regName(k) + "=e ")
			continue
		}
		addJob(job{lp.regName(k), v, lp.fi.vals[k].Type(), func(t *Term) { env[k] = t }})
	}
	for _, k := range lp.cells() {
		k := k
		v := st.heap[k]
		slot := fmt.Sprintf("*%d", k.id)
		if v == lp.base.heap[k] && !isLog(v) {
			if t := heapType(k); v != nil && (t == nil || !isIntType(t)) {
				c.key.WriteString(slot + "=e ")
			} else if v != nil {
				addJob(job{slot, v, heapType(k), func(t *Term) { out.heap[k] = t }})
			}
			continue
		}
		addJob(job{slot, v, heapType(k), func(t *Term) { out.heap[k] = t }})
	}
	var spec []job
	var gs []string
	for g := range st.ghosts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		g := g
		v := st.ghosts[g]
		switch {
		case strings.HasPrefix(g, "spec.") && v.isInt():
			spec = append(spec, job{g, v, tInt, func(t *Term) { out.ghosts[g] = t }})
		case strings.HasPrefix(g, "spec."):
			out.ghosts[g] = v
			c.note(g, "%s", v)
		case g == "failed" || g == "refused" || g == "beyond":
			out.ghosts[g] = mkStr(strings.SplitN(v.s, ";", 2)[0])
			c.key.WriteString(g + " ")
		}
	}
	// the position of the loop explains other positions before any counter that has the same value
	sort.SliceStable(ints, func(i, j int) bool {
		p := lp.a.slots[lp.id]
		return ints[i].slot == p && ints[j].slot != p
	})
	for _, j := range ints {
		t := c.integer(j.slot, j.v, j.t)
		j.put(t)
		if t.op == "sym" {
			c.idx = append(c.idx, t)
			c.idxv = append(c.idxv, j.v)
		}
	}
	for _, j := range rest {
		j.put(c.val(j.slot, j.v, j.t))
	}
	for _, j := range spec {
		if entry {
			c.note(j.slot, "%s", j.v)
			j.put(j.v)
			continue
		}
		j.put(c.position(j.slot, j.v))
	}
	key := c.key.String()
	qs, qv := append(append([]*Term{}, c.pos...), c.idx...), append(append([]*Term{}, c.posv...), c.idxv...)
	for i, p := range c.pos {
		for j, q := range qs {
			if p == q {
				continue
			}
			lo, _ := st.facts.rng(tSub(qv[j], c.posv[i]))
			if k := c.atLeast(key+p.String()+"<="+q.String(), lo, 2); k >= 0 {
				out.facts.addBound(tSub(q, p), big.NewInt(int64(k)), nil)
			}
		}
	}
	a := lp.a
	if a.settle != nil {
		a.settle(out)
	}
	out.since = out.facts.clone()
	a.tell(st)
	if st.ghosts[weakGhost] != nil {
		out.ghosts[weakGhost] = mkStr("")
		if a.exact {
			key += "weak"
		}
	}
	return key, out
}

func (c *canoner) sym(slot string, t types.Type) *Term { return mkSym("P"+c.lp.id+":"+slot, t) }

func (c *canoner) note(slot, f string, a ...interface{}) {
	c.key.WriteString(slot + "=" + fmt.Sprintf(f, a...) + " ")
}

// isStable: the term speaks only of what existed before the loop.
func (c *canoner) isStable(t *Term) bool {
	ok := true
	walk(t, func(x *Term) bool {
		if (x.op == "sym" || x.op == "obj") && !c.lp.stable[x] {
			ok = false
		}
		return ok
	})
	return ok
}

// atLeast is the weakest lower bound (1, 0 or none) met so far for a slot.
func (c *canoner) atLeast(slot string, lo *big.Int, best int) int {
	k := best
	for k >= 0 && (lo == nil || lo.Cmp(big.NewInt(int64(k))) < 0) {
		k--
	}
	full := c.lp.id + slot
	a := c.lp.a
	if old, ok := a.lows[full]; ok {
		if k >= old {
			return old
		}
		a.changed = true
	}
	a.lows[full] = k
	return k
}

func (c *canoner) bounds(slot string, v, r *Term) {
	f := c.out.facts
	lo, _ := c.st.facts.rng(v)
	if k := c.atLeast(slot, lo, 1); k >= 0 {
		f.addBound(r, big.NewInt(int64(k)), nil)
	}
	if in := c.lp.a.input; in != nil {
		lo, _ := c.st.facts.rng(tSub(mkLen(in), v))
		if k := c.atLeast(slot+".len", lo, 0); k >= 0 {
			f.addBound(tSub(mkLen(in), r), new(big.Int), nil)
		}
	}
}

func (c *canoner) integer(slot string, v *Term, t types.Type) *Term {
	a := c.lp.a
	full := c.lp.id + slot
	if !c.entry && !a.vary[full] {
		if e := c.lp.entryVals[slot]; e != v {
			a.vary[full] = true
			a.changed = true
		}
	}
	if c.entry || !a.vary[full] {
		c.note(slot, "%s", v)
		return v
	}
	if slot != a.slots[c.lp.id] {
		if n, ok := v.smallInt(); ok && (a.exact && n >= -1 && n <= 2 || c.mode(slot, t)) {
			c.note(slot, "%d", n)
			return v
		}
	}
	r := c.sym(slot, t)
	if slot != a.slots[c.lp.id] {
		a.weak[r] = true
	}
	c.bounds(slot, v, r)
	c.note(slot, "i")
	if c.memo[v] == nil {
		c.memo[v] = r
	}
	return r
}

// mode: the variable is only ever given constants.
func (c *canoner) mode(slot string, t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == c.lp.a.w.json.Pkg {
		return true
	}
	lp := c.lp
	if lp.modes == nil {
		lp.modes = map[string]bool{}
		for _, k := range lp.live {
			if v := lp.fi.vals[k]; isIntType(v.Type()) && lp.a.w.constLeaves(v, map[ssa.Value]bool{}) {
				lp.modes[lp.regName(k)] = true
			}
		}
	}
	return lp.modes[slot] || c.modeSlots[slot]
}

// constLeaves: every value v can take is a constant of the program text.
func (w *World) constLeaves(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !w.constLeaves(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return w.constLeaves(x.X, seen)
	case *ssa.Convert:
		return w.constLeaves(x.X, seen)
	case *ssa.Call:
		return w.constResult(x.Common().StaticCallee(), 0, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return w.constResult(c.Common().StaticCallee(), x.Index, seen)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return w.constField(fa.X.Type(), fa.Field, seen)
		}
	case *ssa.Parameter:
		// the arguments of its static calls
		f := x.Parent()
		i := -1
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		if f.Object() == nil || f.Object().Exported() {
			return false
		}
		n := 0
		for _, g := range w.repoFunctions() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						if !w.constLeaves(ci.Common().Args[i], seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func (w *World) constResult(f *ssa.Function, i int, seen map[ssa.Value]bool) bool {
	if f == nil || f.Pkg != w.json || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (i >= len(r.Results) || !w.constLeaves(r.Results[i], seen)) {
			return false
		}
	}
	return true
}

// constField: every store to the field is of constants.
func (w *World) constField(t types.Type, i int, seen map[ssa.Value]bool) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, f := range w.repoFunctions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t) && !w.constLeaves(x.Val, seen) {
						return false
					}
				case *ssa.FieldAddr:
					// its address goes elsewhere
					if x.Field == i && types.Identical(x.X.Type().Underlying().(*types.Pointer).Elem(), t) {
						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.Store:
								if y.Val == x {
									return false
								}
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// position expresses a position in the input through the canonical positions.
func (c *canoner) position(slot string, v *Term) *Term {
	if m := c.memo[v]; m != nil {
		c.note(slot, "%s", m)
		return m
	}
	for i, iv := range c.idxv {
		if tSub(v, iv) == mkInt(0) {
			c.note(slot, "%s", c.idx[i])
			return c.idx[i]
		}
	}
	if c.isStable(v) && v.op != "int" {
		c.note(slot, "%s", v)
		return v
	}
	r := c.sym(slot, tInt)
	c.bounds(slot, v, r)
	c.memo[v] = r
	c.pos, c.posv = append(c.pos, r), append(c.posv, v)
	c.note(slot, "p")
	return r
}

func (c *canoner) text(slot string, v *Term) *Term {
	a := c.lp.a
	if v.op == "str" {
		full := c.lp.id + slot
		m := a.strs[full]
		if m == nil {
			m = map[string]bool{}
			a.strs[full] = m
		}
		if !m[v.s] && len(m) < 16 {
			m[v.s] = true
		}
		if m[v.s] {
			c.note(slot, "%q", v.s)
			return v
		}
	}
	if k, ok := c.st.facts.sconst[v]; ok && k == "" {
		c.note(slot, "%q", "")
		return mkStr("")
	}
	if c.isStable(v) && v.op != "cat" {
		c.note(slot, "%s", v)
		return v
	}
	if m := c.memo[v]; m != nil {
		c.note(slot, "%s", m)
		return m
	}
	if v.op == "substr" && v.args[0] == a.input {
		c.note(slot, "sub")
		lo := c.position(slot+".lo", v.args[1])
		hi := c.position(slot+".hi", v.args[2])
		l, _ := c.st.facts.rng(mkLen(v))
		if k := c.atLeast(slot+".gap", l, 2); k >= 0 {
			c.out.facts.addBound(tSub(hi, lo), big.NewInt(int64(k)), nil)
		}
		r := mkSubstr(a.input, lo, hi)
		c.memo[v] = r
		return r
	}
	r := c.sym(slot, tString)
	lo, hi := c.st.facts.rng(mkLen(v))
	tag := "?"
	if hi != nil && hi.Sign() == 0 {
		c.note(slot, "%q", "")
		return mkStr("")
	}
	if lo != nil && lo.Sign() > 0 {
		c.out.facts.addBound(mkLen(r), big.NewInt(1), nil)
		tag = "?+"
	}
	c.note(slot, "%s", tag)
	a.weak[r] = true
	c.memo[v] = r
	return r
}

func (c *canoner) lost(slot string, t types.Type) *Term {
	c.note(slot, "lost")
	return mkFn("lost", t, c.sym(slot, t))
}

func (c *canoner) val(slot string, v *Term, t types.Type) *Term {
	if v == nil {
		return nil
	}
	if t == nil {
		t = v.typ
	}
	st := c.st
	w := c.lp.a.w
	if t != nil {
		switch {
		case isIntType(t):
			return c.integer(slot, v, t)
		case isStringType(t):
			return c.text(slot, v)
		case isBoolType(t):
			r := mkBool(ask(st, v))
			c.note(slot, "%s", r)
			return r
		case isErrSlice(t):
			return c.errors(slot, v, t)
		}
	}
	switch v.op {
	case "nil", "true", "false", "str", "int", "float", "clo":
		if c.isStable(v) {
			c.note(slot, "%s", v)
			return v
		}
	}
	if t == nil {
		// containers of unknown type: logs of what was done to a document
		if v.op == "seq" {
			return c.log(slot, v)
		}
		if c.isStable(v) {
			c.note(slot, "%s", v)
			return v
		}
		return c.lost(slot, t)
	}
	if n := w.handleType(t); n != nil && v.op != "struct" {
		if v.op == "fn" && v.s == freshOp && c.lp.stable[v.args[0].args[0]] || c.isStable(v) {
			c.note(slot, "%s", v)
			return v
		}
		if m := c.memo[v]; m != nil {
			c.note(slot, "%s", m)
			return m
		}
		r := c.sym(slot, t)
		c.memo[v] = r
		tag := n.Obj().Name()
		if n == w.V {
			k := kindOf(w, c.lp.a, st, v)
			tag += ":" + k
			assumeKind(w, c.out, r, k)
		}
		c.note(slot, "%s", tag)
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return c.pointer(slot, v, t, u)
	case *types.Slice:
		if v.op == "seq" || v.op == "scat" {
			// a backing store
			if isLog(v) {
				return c.log(slot, v)
			}
			if c.isStable(v) {
				c.note(slot, "%s", v)
				return v
			}
			return c.lost(slot, t)
		}
		return c.slice(slot, v, t, u)
	case *types.Struct:
		if isBuilderT(types.NewPointer(t)) {
			x := c.text(slot, textOfSeq(v))
			return mkSeq(x)
		}
		if v.op == "struct" {
			a := make([]*Term, len(v.args))
			for i := range a {
				if s := fmt.Sprintf("%s.%d", slot, i); isIntType(u.Field(i).Type()) && w.constField(t, i, map[ssa.Value]bool{}) {
					if c.modeSlots == nil {
						c.modeSlots = map[string]bool{}
					}
					c.modeSlots[s] = true
				}
				a[i] = c.val(fmt.Sprintf("%s.%d", slot, i), v.args[i], u.Field(i).Type())
			}
			return mkStruct(v.typ, a...)
		}
	case *types.Interface:
		if v.op == "iface" && !c.isStable(v) {
			if isErrorT(v.typ) {
				r := c.sym(slot, t)
				c.out.facts.assume(mkEq(r, tNil), false)
				c.note(slot, "err")
				return r
			}
			return mkIface(v.typ, c.val(slot+".i", v.args[0], v.typ))
		}
	}
	if c.isStable(v) {
		c.note(slot, "%s", v)
		return v
	}
	return c.lost(slot, t)
}

func isLog(v *Term) bool {
	if v.op != "seq" || len(v.args) == 0 {
		return false
	}
	for _, a := range v.args {
		if a.op != "fn" || !strings.HasPrefix(a.s, "ev:") {
			return false
		}
	}
	return true
}

// log keeps, of what was done to a document made before the loop, the last write of every constant key.
func (c *canoner) log(slot string, v *Term) *Term {
	if len(v.args) == 0 {
		c.note(slot, "[]")
		return v
	}
	if !isLog(v) {
		return c.lost(slot, v.typ)
	}
	at := map[string]int{}
	var keep []*Term
	for _, ev := range v.args {
		if !strings.HasPrefix(ev.s, "ev:Set") || len(ev.args) == 0 || ev.args[0].op != "str" {
			return c.lost(slot, v.typ)
		}
		k := ev.args[0].s
		if i, ok := at[k]; ok {
			keep[i] = ev
		} else {
			at[k] = len(keep)
			keep = append(keep, ev)
		}
	}
	for i, ev := range keep {
		as := []*Term{ev.args[0]}
		for j, x := range ev.args[1:] {
			as = append(as, c.val(fmt.Sprintf("%s[%s].%d", slot, ev.args[0].s, j), x, ptrType(x)))
		}
		keep[i] = mkFn(ev.s, nil, as...)
	}
	return mkSeq(keep...)
}

func ptrType(x *Term) types.Type {
	if x.typ != nil {
		return x.typ
	}
	if x.op == "addr" && len(x.args) == 1 && x.args[0].typ != nil {
		return types.NewPointer(x.args[0].typ)
	}
	return termType(x)
}

func (c *canoner) errors(slot string, v *Term, t types.Type) *Term {
	st := c.st
	switch errStatus(st, v) {
	case "none":
		c.note(slot, "nil")
		return tNil
	case "some":
		r := c.sym(slot, t)
		c.out.facts.assume(mkEq(r, tNil), false)
		c.out.facts.addBound(mkLen(r), big.NewInt(1), nil)
		c.note(slot, "errs")
		return r
	case "empty":
		r := c.sym(slot, t)
		c.out.facts.assume(mkEq(r, tNil), false)
		c.out.facts.addBound(mkLen(r), new(big.Int), new(big.Int))
		c.note(slot, "noerrs")
		return r
	}
	if st.facts.eval(mkEq(v, tNil)) == 0 {
		panic(splitOn(mkEq(v, tNil)))
	}
	panic(splitOn(mkEq0(mkLen(v))))
}

func (c *canoner) pointer(slot string, v *Term, t types.Type, u *types.Pointer) *Term {
	st := c.st
	if m := c.memo[v]; m != nil {
		c.note(slot, "%s", m)
		return m
	}
	if v.op == "nil" || v.op != "addr" && ask(st, mkEq(v, tNil)) {
		c.note(slot, "nil")
		return tNil
	}
	if c.isStable(v) {
		c.note(slot, "%s", v)
		return v
	}
	w := c.lp.a.w
	if n := w.handleType(u.Elem()); n == w.V {
		H := st.load(v, u.Elem())
		if H.op == "struct" {
			return c.lost(slot, t)
		}
		k := kindOf(w, c.lp.a, st, H)
		r := c.sym(slot, t)
		c.memo[v] = r
		c.out.facts.assume(mkEq(r, tNil), false)
		assumeKind(w, c.out, c.out.load(r, u.Elem()), k)
		c.note(slot, "*V:%s", k)
		return r
	}
	if v.op == "addr" && len(v.args) == 1 && v.args[0].op == "obj" {
		o := mkObj("P"+c.lp.id+":"+slot, v.args[0].typ)
		r := mkAddr(o)
		c.memo[v] = r
		c.note(slot, "&")
		if !c.busy[v] {
			c.busy[v] = true
			c.out.heap[o] = c.val(slot+"*", st.content(v.args[0]), u.Elem())
		}
		return r
	}
	if v.op != "addr" {
		r := c.sym(slot, t)
		c.memo[v] = r
		c.out.facts.assume(mkEq(r, tNil), false)
		c.note(slot, "nonnil")
		return r
	}
	return c.lost(slot, t)
}

func (c *canoner) slice(slot string, v *Term, t types.Type, u *types.Slice) *Term {
	st := c.st
	if v.op == "nil" {
		c.note(slot, "nil")
		return tNil
	}
	if v.op != "slice" && c.isStable(v) {
		c.note(slot, "%s", v)
		return v
	}
	full := c.lp.id + slot
	n := mkLen(v)
	back := mkObj("P"+full+"[]", t)
	if ask(st, mkEq0(n)) {
		c.note(slot, "[]")
		c.out.heap[back] = mkSeq()
		return mk("slice", v.s, nil, nil, nil, nil, back, mkInt(0), mkInt(0))
	}
	q := st.seqOf(v)
	a := c.lp.a
	if k, ok := n.smallInt(); ok && a.exact && k <= 3 {
		xs := make([]*Term, k)
		for i := range xs {
			xs[i] = c.val(fmt.Sprintf("%d(%s)", i, slot), st.elem(q, mkInt(int64(i)), u.Elem()), u.Elem())
		}
		c.note(slot, "[%d]", k)
		c.out.heap[back] = mkSeq(xs...)
		return mk("slice", v.s, nil, nil, nil, nil, back, mkInt(0), mkInt(k))
	}
	x := st.elem(q, tAddC(n, -1), u.Elem())
	before := c.key.Len()
	last := c.val("top("+slot+")", x, u.Elem())
	cls := c.key.String()[before:]
	if a.tops[full] == nil {
		a.tops[full] = map[string]bool{}
	}
	if !a.tops[full][cls] {
		a.tops[full][cls] = true
		a.changed = true
	}
	p := mkSym("P"+full+"[..]", t)
	a.weak[p] = true
	c.note(slot, "[..x]")
	solid := true
	for k := range a.tops[full] {
		if !strings.Contains(k, "=*V:") {
			solid = false
		}
	}
	if solid {
		c.out.facts.univ[mk("univ", "-", nil, nil, nil, nil, mkInt(0), mkLen(p), mkEq(mkElem(p, kappa, u.Elem()), tNil))] = true
	}
	c.out.heap[back] = mkScat(p, mkSeq(last))
	return mk("slice", v.s, nil, nil, nil, nil, back, mkInt(0), tAddC(mkLen(p), 1))
}

// ---- kinds of handles ----

// kindOf is what kind of container a value holds, dividing the state over the kinds its list was given.
func kindOf(w *World, a *autoPass, st *State, H *Term) string {
	isM, isA := mkFn("is:IsMap", tBool, H), mkFn("is:IsArray", tBool, H)
	switch {
	case st.facts.eval(isM) == 1:
		return "M"
	case st.facts.eval(isA) == 1:
		return "A"
	}
	ks := listKinds(a, H)
	if ks == "" {
		if st.facts.eval(isM) == -1 && st.facts.eval(isA) == -1 {
			return "other"
		}
		return "?"
	}
	var alts []func(*State) bool
	for _, k := range ks {
		k := string(k)
		alts = append(alts, func(s *State) bool { return assumeKind(w, s, H, k) })
	}
	panic(splitReq{alts})
}

// listKinds are the kinds of values that a list of a loop was given, for a value read from the part of it that is
// not followed ("" when the value is not from such a list).
func listKinds(a *autoPass, H *Term) string {
	p := H
	if p.op == "deref" {
		p = p.args[0]
	}
	if p.op != "elem" {
		return ""
	}
	s := p.args[0]
	if s.op != "sym" || !strings.HasSuffix(s.s, "[..]") || !strings.HasPrefix(s.s, "P") {
		return ""
	}
	full := strings.TrimSuffix(s.s[1:], "[..]")
	r := ""
	for c := range a.tops[full] {
		switch {
		case strings.Contains(c, "V:M "):
			r += "M"
		case strings.Contains(c, "V:A "):
			r += "A"
		default:
			return ""
		}
	}
	if r == "AM" {
		r = "MA"
	}
	return r
}

func assumeKind(w *World, st *State, H *Term, k string) bool {
	yes, get := "", ""
	switch k {
	case "M":
		yes, get = "IsMap", "GetMap"
	case "A":
		yes, get = "IsArray", "GetArray"
	default:
		return true
	}
	f := st.facts
	ok := true
	if x, has := fieldNamed(w.V, get); has {
		ok = f.assume(mkFn("ok:"+get, tBool, H), true) && ok
		ok = f.assume(mkEq(mkFn("res:"+get, x.sig.Results().At(0).Type(), H), tNil), false) && ok
	}
	for _, x := range fieldsOf(w.V) {
		if strings.HasPrefix(x.name, "Is") && x.sig.Results().Len() == 1 && x.sig.Params().Len() == 0 {
			ok = f.assume(mkFn("is:"+x.name, tBool, H), x.name == yes) && ok
		}
	}
	return ok
}
