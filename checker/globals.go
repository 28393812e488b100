package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Package-level variables that nothing writes after initialisation hold what the initialiser gives them. initHeap has
// those cells, found by running the initialiser of the package; other package-level variables hold an unknown value.
var initHeap = map[*Term]*Term{}

func globalObj(g *ssa.Global) *Term {
	return mkObj("global:"+g.String(), g.Type().Underlying().(*types.Pointer).Elem())
}

func isGlobalObj(t *Term) bool {
	return t.op == "obj" && len(t.s) > 7 && t.s[:7] == "global:"
}

// readInits fills initHeap.
func (w *World) readInits() {
	initHeap = map[*Term]*Term{}
	var gs []*ssa.Global
	for _, m := range w.json.Members {
		if g, ok := m.(*ssa.Global); ok {
			gs = append(gs, g)
		}
	}
	init := w.json.Func("init")
	if init == nil || len(gs) <= 1 {
		return
	}
	stable := w.stableGlobals()
	e := newEng(w.prog)
	e.inl = w.inl
	e.intercept = func(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool) {
		if fn.Name() == "init" && fn.Pkg != nil && fn.Pkg != w.json && fn.Parent() == nil && fn.Signature.Recv() == nil {
			return []outcome{ret(st)}, true
		}
		return nil, false
	}
	st := newState()
	for _, g := range gs {
		st.heap[globalObj(g)] = zeroOf(g.Type().Underlying().(*types.Pointer).Elem())
	}
	outs := e.call(st, "init", init, nil, nil)
	if len(outs) != 1 || outs[0].kind != "ret" {
		if os.Getenv("INITTRACE") != "" {
			for _, o := range outs {
				println("init:", o.kind, o.msg)
			}
		}
		return
	}
	ok := map[*Term]bool{}
	for _, g := range gs {
		ok[globalObj(g)] = stable[g]
		if os.Getenv("INITTRACE") != "" {
			c := outs[0].st.heap[globalObj(g)]
			println("global", g.String(), stable[g], cut(c.String(), 200))
		}
	}
	for o, c := range outs[0].st.heap {
		if isGlobalObj(o) && !ok[o] {
			continue
		}
		initHeap[o] = c
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// stableGlobals: the package-level variables of the package that are read, and only read, outside the initialiser.
func (w *World) stableGlobals() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for _, m := range w.json.Members {
		if g, ok := m.(*ssa.Global); ok {
			r[g] = true
		}
	}
	var reads func(v ssa.Value, i ssa.Instruction, depth int) bool
	onlyRead := func(v ssa.Value, depth int) bool {
		rs := v.Referrers()
		if rs == nil {
			return false
		}
		for _, i := range *rs {
			if !reads(v, i, depth+1) {
				return false
			}
		}
		return true
	}
	value := func(v ssa.Value, depth int) bool { return !hasRefs(v.Type()) || onlyRead(v, depth) }
	reads = func(v ssa.Value, i ssa.Instruction, depth int) bool {
		if depth > 12 {
			return false
		}
		switch x := i.(type) {
		case *ssa.DebugRef, *ssa.If, *ssa.BinOp, *ssa.TypeAssert:
			return true
		case *ssa.UnOp:
			return value(x, depth)
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Range, *ssa.Next, *ssa.ChangeType:
			return onlyRead(i.(ssa.Value), depth)
		case *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Phi:
			return value(i.(ssa.Value), depth)
		case *ssa.Convert:
			return true
		case *ssa.Lookup:
			if x.X != v {
				return true
			}
			if _, ok := x.Type().(*types.Tuple); ok {
				return onlyRead(x, depth)
			}
			return value(x, depth)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "len" || b.Name() == "cap" || b.Name() == "append" && x.Call.Args[0] != v || b.Name() == "copy" && x.Call.Args[0] != v
			}
			if x.Call.Value == v {
				return true
			}
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			if _, ok := v.Type().Underlying().(*types.Signature); ok {
				return true
			}
			if f.Origin() != nil {
				f = f.Origin()
			}
			if f.Object() != nil && f.Object().Pkg() != nil {
				switch f.Object().Pkg().Path() + "." + f.Name() {
				case "slices.Contains", "slices.Index", "slices.Equal", "strings.Join", "bytes.Equal", "bytes.IndexByte":
					return true
				}
			}
			if w.inl(f) && len(f.Blocks) > 0 {
				for k, a := range x.Call.Args {
					if a == v && !onlyRead(f.Params[k], depth) {
						return false
					}
				}
				return true
			}
		case *ssa.Return:
			_, fun := v.Type().Underlying().(*types.Signature)
			return fun || isErrorT(v.Type())
		case *ssa.MakeInterface:
			return !hasRefs(v.Type())
		case *ssa.Store:
			if x.Addr == v {
				return false
			}
			_, fun := v.Type().Underlying().(*types.Signature)
			return fun || isErrorT(v.Type())
		}
		return false
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if !w.ours(fn) {
			continue
		}
		inInit := isPkgInit(fn) && fn.Pkg == w.json
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || inInit || !r[g] {
						continue
					}
					if !reads(g, i, 0) {
						r[g] = false
					}
				}
			}
		}
	}
	return r
}

// byEntry sets in to v. When v is an entry of a table of constants at a position that is not known, the paths are told
// apart by the entry read.
func (e *Eng) byEntry(st *State, in ssa.Value, v *Term) []*State {
	if v.op != "elem" || v.args[0].op != "seq" || len(v.args[0].args) > 256 || len(v.args[0].args) == 0 {
		st.set(in, v)
		return one(st)
	}
	tab, i := v.args[0].args, v.args[1]
	if _, ok := i.constInt(); ok {
		st.set(in, v)
		return one(st)
	}
	lo, hi := st.facts.rng(i)
	from, to := 0, len(tab)-1
	if lo != nil && lo.IsInt64() && lo.Int64() > 0 && lo.Int64() <= int64(to) {
		from = int(lo.Int64())
	}
	if hi != nil && hi.IsInt64() && hi.Int64() >= int64(from) && hi.Int64() < int64(to) {
		to = int(hi.Int64())
	}
	count := map[*Term]int{}
	var most *Term
	for k := from; k <= to; k++ {
		switch tab[k].op {
		case "int", "str", "true", "false", "nil", "float":
		default:
			st.set(in, v)
			return one(st)
		}
		count[tab[k]]++
		if most == nil || count[tab[k]] > count[most] {
			most = tab[k]
		}
	}
	var rs []*State
	add := func(s *State, ok bool, t *Term) {
		if ok {
			s.set(in, t)
			rs = append(rs, s)
		}
	}
	if few := to - from + 1 - count[most]; few <= 16 {
		rest, ok := st.clone(), true
		for k := from; k <= to; k++ {
			if tab[k] != most {
				s := st.clone()
				add(s, e.assume(s, mkEq0(tAddC(i, int64(-k))), true), tab[k])
				ok = ok && e.assume(rest, mkEq0(tAddC(i, int64(-k))), false)
			}
		}
		add(rest, ok, most)
		return rs
	}
	runs := 1
	for k := from + 1; k <= to; k++ {
		if tab[k] != tab[k-1] {
			runs++
		}
	}
	if runs > 32 {
		st.set(in, v)
		return one(st)
	}
	for k := from; k <= to; {
		j := k
		for j < to && tab[j+1] == tab[k] {
			j++
		}
		s := st.clone()
		ok := e.assume(s, mkLt0(tAddC(i, int64(-k))), false) && e.assume(s, mkLt0(tSub(mkInt(int64(j)), i)), false)
		add(s, ok, tab[k])
		k = j + 1
	}
	return rs
}
