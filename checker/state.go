package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fi  *fnInfo
	env []*Term
	ctx string
}

// State is one abstract state on one path: registers of every active frame, the heap, the facts and ghost cells.
type State struct {
	frames   []*frame
	heap     map[*Term]*Term
	fam      []famEntry // objects made by earlier loop rounds
	facts    *Facts
	ghosts   map[string]*Term
	counters []*Term // round counters of the active loops
	since    *Facts  // what was known at the last loop head of an automaton
}

// famEntry: every object matching key (κ = the round that made it) has this content.
type famEntry struct{ key, content *Term }

func newState() *State {
	return &State{heap: map[*Term]*Term{}, facts: newFacts(), ghosts: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Term]*Term, len(s.heap)+4), facts: s.facts.clone(), ghosts: make(map[string]*Term, len(s.ghosts))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	n.fam = s.fam[:len(s.fam):len(s.fam)]
	n.since = s.since
	n.counters = s.counters[:len(s.counters):len(s.counters)]
	n.frames = append([]*frame{}, s.frames...)
	if len(n.frames) > 0 {
		t := n.frames[len(n.frames)-1]
		n.frames[len(n.frames)-1] = &frame{t.fi, append([]*Term{}, t.env...), t.ctx}
	}
	return n
}

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

func (s *State) push(fi *fnInfo, ctx string) {
	s.frames = append(append([]*frame{}, s.frames...), &frame{fi, make([]*Term, len(fi.vals)), ctx})
}

// pop removes the top frame; the caller's frame is copied because paths share it.
func (s *State) pop() {
	s.frames = append([]*frame{}, s.frames[:len(s.frames)-1]...)
	if len(s.frames) > 0 {
		t := s.frames[len(s.frames)-1]
		s.frames[len(s.frames)-1] = &frame{t.fi, append([]*Term{}, t.env...), t.ctx}
	}
}

func (s *State) set(v ssa.Value, t *Term) {
	f := s.top()
	f.env[f.fi.num[v]] = t
}

// symAt is a value fixed by the site that makes it, the call string and the loop rounds.
func (s *State) symAt(site string, t types.Type) *Term { return mkSymAt(site, t, s.counters...) }

func (s *State) alloc(site string, elem types.Type, content *Term) *Term {
	o := mkObj(site, elem, s.counters...)
	s.heap[o] = content
	return mkAddr(o)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return mkFloat("0")
		}
		return tNil
	case *types.Struct:
		a := make([]*Term, u.NumFields())
		for i := range a {
			a[i] = zeroOf(u.Field(i).Type())
		}
		if len(a) > 400 {
			return mkFn("zero", t)
		}
		return mkStruct(t, a...)
	case *types.Array:
		if u.Len() > 256 {
			return mkFn("zero", t)
		}
		a := make([]*Term, u.Len())
		for i := range a {
			a[i] = zeroOf(u.Elem())
		}
		return mkSeq(a...)
	}
	return tNil
}

func derefType(p *Term) types.Type {
	if p.typ != nil {
		if pt, ok := p.typ.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
	}
	return nil
}

// content of the cell a base denotes
func (s *State) content(base *Term) *Term {
	if c, ok := s.heap[base]; ok {
		return c
	}
	if len(base.args) > 0 && (base.op == "obj" || base.op == "sym") {
		for i := len(s.fam) - 1; i >= 0; i-- {
			var idx *Term
			if s.fam[i].key.s == base.s && matchKappa(s.fam[i].key, base, &idx) {
				if idx == nil {
					return s.fam[i].content
				}
				return subst(s.fam[i].content, kappa, idx)
			}
		}
	}
	if base.op == "obj" {
		if c, ok := initHeap[base]; ok {
			return c
		}
		if isGlobalObj(base) {
			return mkFn("lost", base.typ, base)
		}
		if base.typ != nil {
			return mk("deref", "", base.typ, nil, nil, nil, base)
		}
		return mkFn("lost", nil, base)
	}
	if base.typ != nil {
		if _, ok := base.typ.Underlying().(*types.Slice); ok {
			return base // the elements of an opaque slice
		}
	}
	return mk("deref", "", derefType(base), nil, nil, nil, base)
}

func (s *State) load(addr *Term, typ types.Type) *Term {
	base, steps := addr, []*Term(nil)
	if addr.op == "addr" {
		base, steps = addr.args[0], addr.args[1:]
	}
	c := s.content(base)
	for _, st := range steps {
		c = s.stepInto(c, st, typ)
	}
	return c
}

func fieldTypeOf(t types.Type, k int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok && k < st.NumFields() {
		return st.Field(k).Type()
	}
	return nil
}

func (s *State) stepInto(c, st *Term, typ types.Type) *Term {
	if st.op == "fs" {
		k := fieldIdx(st)
		return mkSel(c, k, fieldTypeOf(c.typ, k))
	}
	return s.elem(c, st.args[0], typ)
}

// elem reads an element of a sequence, using facts to see through updates and concatenations.
func (s *State) elem(c, i *Term, typ types.Type) *Term {
	for {
		switch c.op {
		case "supd":
			d := tSub(c.args[1], i)
			if k, ok := d.smallInt(); ok {
				if k == 0 {
					return c.args[2]
				}
				c = c.args[0]
				continue
			}
			if s.facts.eval(mkEq0(d)) == -1 {
				c = c.args[0]
				continue
			}
			if s.facts.eval(mkEq0(d)) == 1 {
				return c.args[2]
			}
		case "scat":
			first := c.args[0]
			if lo, _ := s.facts.rng(tAddC(tSub(mkLen(first), i), -1)); lo != nil && lo.Sign() >= 0 {
				c = first
				continue
			}
			if lo, _ := s.facts.rng(tSub(i, mkLen(first))); lo != nil && lo.Sign() >= 0 {
				i = tSub(i, mkLen(first))
				c = mkScat(c.args[1:]...)
				continue
			}
		case "sslice":
			i = tAdd(c.args[1], i)
			c = c.args[0]
			continue
		}
		return mkElem(c, i, typ)
	}
}

func (s *State) store(addr, v *Term) {
	base, steps := addr, []*Term(nil)
	if addr.op == "addr" {
		base, steps = addr.args[0], addr.args[1:]
	}
	s.heap[base] = s.upd(s.content(base), steps, v)
}

func (s *State) upd(c *Term, steps []*Term, v *Term) *Term {
	if len(steps) == 0 {
		return v
	}
	st := steps[0]
	if st.op == "fs" {
		k := fieldIdx(st)
		if c.op != "struct" {
			u, ok := c.typ.Underlying().(*types.Struct)
			if !ok {
				return mkFn("lost", c.typ, c)
			}
			a := make([]*Term, u.NumFields())
			for i := range a {
				a[i] = mkSel(c, i, u.Field(i).Type())
			}
			c = mkStruct(c.typ, a...)
		}
		a := append([]*Term{}, c.args...)
		a[k] = s.upd(a[k], steps[1:], v)
		return mkStruct(c.typ, a...)
	}
	i := st.args[0]
	if len(steps) > 1 {
		v = s.upd(s.elem(c, i, nil), steps[1:], v)
	}
	return mkSupd(c, i, v)
}

// seqOf is the element sequence of a slice value.
func (s *State) seqOf(t *Term) *Term {
	switch t.op {
	case "nil":
		return mkSeq()
	case "slice":
		base := t.args[0]
		var c *Term
		if base.op == "addr" {
			c = s.load(base, nil)
		} else {
			c = s.content(base)
		}
		return s.sslice(c, t.args[1], tAdd(t.args[1], t.args[2]))
	}
	return t
}

func (s *State) sslice(c, lo, hi *Term) *Term {
	r := mkSslice(c, lo, hi)
	if r.op == "sslice" && r.args[0].op == "scat" {
		// drop trailing parts beyond hi / leading parts before lo when facts allow
		sc := r.args[0]
		first := sc.args[0]
		l := mkLen(first)
		if x, _ := s.facts.rng(tSub(l, hi)); x != nil && x.Sign() >= 0 {
			return s.sslice(first, lo, hi)
		}
	}
	return r
}

// mkSlice builds a slice value over a fresh backing object.
func (s *State) newSlice(p string, elem types.Type, seq *Term, maybeNil bool) *Term {
	o := mkObj(p, types.NewSlice(elem), s.counters...)
	s.heap[o] = seq
	n := ""
	if maybeNil {
		n = "?"
	}
	return mk("slice", n, nil, nil, nil, nil, o, mkInt(0), mkLen(seq))
}
