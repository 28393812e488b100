package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Two descriptions of a list can be equal without being the same term. Before a difference is reported, both are
// written out for every size and position at which the terms or the path can change their minds.

// intAtoms are the integers other than κ and the list's length that a term depends on.
func intAtoms(ts []*Term, size *Term) []*Term {
	set := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		l := toLin(t)
		for a := range l.m {
			if a == size || a == kappa || a.op == "len" && !a.contains(kappa) && a == size {
				continue
			}
			set[a] = true
		}
	}
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			switch x.op {
			case "smap":
				add(x.args[0])
				add(x.args[1])
				for _, c := range smapCases(x) {
					for _, g := range c.guards {
						walk(g, func(y *Term) bool {
							if y.op == "lt0" || y.op == "eq0" {
								add(y.args[0])
								return false
							}
							return true
						})
					}
				}
			case "sslice":
				add(x.args[1])
				add(x.args[2])
			case "supd":
				add(x.args[1])
			case "elem":
				if !x.args[1].contains(kappa) {
					add(x.args[1])
				}
			}
			return true
		})
	}
	var r []*Term
	for a := range set {
		if strings.HasPrefix(a.s, "κ") {
			continue
		}
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// turningPoints are the constants near which integer conditions of the terms and of the path change.
func turningPoints(st *State, about map[*Term]bool, ts []*Term) []int64 {
	set := map[int64]bool{}
	add := func(c *big.Int) {
		if c == nil || !c.IsInt64() {
			return
		}
		k := c.Int64()
		if k < 0 {
			k = -k
		}
		if k <= 3 || k > 100000 {
			return
		}
		for d := int64(-2); d <= 3; d++ {
			set[k+d] = true
		}
	}
	for _, t := range ts {
		walk(t, func(x *Term) bool {
			if x.op == "lin" || x.op == "int" {
				add(x.c)
			}
			return true
		})
	}
	for t, iv := range st.facts.bounds {
		l := toLin(t)
		rel := false
		for a := range l.m {
			if about[a] {
				rel = true
			}
		}
		if rel {
			add(l.c)
			add(iv.lo)
			add(iv.hi)
		}
	}
	var r []int64
	for k := range set {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// compare writes both sequences out: 1 when they agree wherever they could be written out, -1 with a witness when
// they differ for some size and position the path allows, 0 when that cannot be told.
func (b *box) compare(st *State, got, want, size *Term) (int, string) {
	atoms := intAtoms([]*Term{got, want}, size)
	if len(atoms) > 1 {
		return 0, ""
	}
	about := map[*Term]bool{size: true}
	for _, a := range atoms {
		about[a] = true
	}
	pts := turningPoints(st, about, []*Term{got, want})
	sizes := map[int64]bool{0: true, 1: true, 2: true, 3: true, 4: true}
	pos := map[int64]bool{0: true, 1: true, 2: true, 3: true, -1: true}
	for _, p := range pts {
		if p <= 2100 {
			sizes[p] = true
			pos[p] = true
		}
	}
	same, whole := false, true
	var ns, is []int64
	for n := range sizes {
		ns = append(ns, n)
	}
	for p := range pos {
		is = append(is, p)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
	if len(atoms) == 0 {
		is = []int64{0}
	}
	runs := 0
	for _, n := range ns {
		var here []int64
		here = append(here, is...)
		if len(atoms) > 0 && n > 4 {
			here = append(here, n-1, n-2)
		}
		done := map[int64]bool{}
		for _, i := range here {
			if done[i] {
				continue
			}
			done[i] = true
			if runs++; runs > 600 {
				break
			}
			m := map[*Term]*Term{size: mkInt(n)}
			f := st.facts.clone()
			if !f.addBound(size, big.NewInt(n), big.NewInt(n)) {
				continue
			}
			if len(atoms) > 0 {
				if !f.addBound(atoms[0], big.NewInt(i), big.NewInt(i)) {
					continue
				}
				if lo, hi := f.rng(tSub(atoms[0], mkInt(i))); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
					continue
				}
				m[atoms[0]] = mkInt(i)
				if !consistent(f, m) {
					continue
				}
			}
			g, ok1 := b.written(got, m, n)
			w, ok2 := b.written(want, m, n)
			if !ok1 || !ok2 {
				whole = false
				continue
			}
			at := "for " + mkInt(n).String() + " entries"
			if len(atoms) > 0 {
				at += " and position " + mkInt(i).String()
			}
			if len(g) != len(w) {
				return -1, at
			}
			for k := range g {
				if g[k] != w[k] {
					if !understood(g[k]) || !understood(w[k]) {
						whole = false
						break
					}
					return -1, at
				}
			}
			same = true
		}
	}
	if same && whole {
		return 1, ""
	}
	return 0, ""
}

// consistent: the path's linear conditions hold for the chosen numbers, as far as they speak of these alone.
func consistent(f *Facts, m map[*Term]*Term) bool {
	for t, iv := range f.bounds {
		s := substMap(t, m, map[*Term]*Term{})
		c, ok := s.constInt()
		if !ok {
			continue
		}
		if iv.lo != nil && c.Cmp(iv.lo) < 0 || iv.hi != nil && c.Cmp(iv.hi) > 0 {
			return false
		}
	}
	for t, v := range f.truth {
		s := substMap(t, m, map[*Term]*Term{})
		if s == tTrue && !v || s == tFalse && v {
			return false
		}
	}
	return true
}

// written is the list the term describes once the numbers are fixed.
func (b *box) written(t *Term, m map[*Term]*Term, n int64) ([]*Term, bool) {
	memo := map[*Term]*Term{}
	sub := func(x *Term) *Term { return substMap(x, m, memo) }
	var rec func(s *Term) ([]*Term, bool)
	rec = func(s *Term) ([]*Term, bool) {
		if b != nil && s != nil && (s == b.K0 || s == b.V0) {
			var et types.Type = tString
			if s.typ != nil {
				if sl, ok := s.typ.Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
			}
			if s.op == "sym" || s.op == "fn" || s.op == "deref" {
				var r []*Term
				for i := int64(0); i < n; i++ {
					r = append(r, mkElem(s, mkInt(i), et))
				}
				return r, true
			}
		}
		switch s.op {
		case "seq":
			var r []*Term
			for _, a := range s.args {
				r = append(r, sub(a))
			}
			return r, true
		case "scat":
			var r []*Term
			for _, p := range s.args {
				a, ok := rec(p)
				if !ok {
					return nil, false
				}
				r = append(r, a...)
			}
			return r, true
		case "sslice":
			lo, ok1 := sub(s.args[1]).smallInt()
			hi, ok2 := sub(s.args[2]).smallInt()
			a, ok := rec(s.args[0])
			if !ok || !ok1 || !ok2 || lo < 0 || hi < lo || hi > int64(len(a)) {
				return nil, false
			}
			return a[lo:hi], true
		case "supd":
			i, ok1 := sub(s.args[1]).smallInt()
			a, ok := rec(s.args[0])
			if !ok || !ok1 || i < 0 || i >= int64(len(a)) {
				return nil, false
			}
			r := append([]*Term{}, a...)
			r[i] = sub(s.args[2])
			return r, true
		case "smap":
			lo, ok1 := sub(s.args[0]).smallInt()
			hi, ok2 := sub(s.args[1]).smallInt()
			if !ok1 || !ok2 || hi-lo > 2200 {
				return nil, false
			}
			var r []*Term
			for i := lo; i < hi; i++ {
				var step []*Term
				found := 0
				for _, c := range smapCases(s) {
					can := true
					for _, q := range c.guards {
						switch sub(subst(q, kappa, mkInt(i))) {
						case tTrue:
						case tFalse:
							can = false
						default:
							// a condition on something else: it may or may not hold
						}
						if !can {
							break
						}
					}
					if !can {
						continue
					}
					a, ok := rec(subst(c.piece, kappa, mkInt(i)))
					if !ok {
						return nil, false
					}
					if found++; found > 1 && !sameTerms(a, step) {
						return nil, false
					}
					step = a
				}
				if found == 0 {
					return nil, false
				}
				r = append(r, step...)
			}
			return r, true
		}
		return nil, false
	}
	return rec(t)
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
