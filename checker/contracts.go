package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts: what an operation of a document, array or value that the analysed code was handed does. They are the
// properties themselves, assumed for the nested instance and decided for the operation under analysis
// (documents are finite, so the argument is by induction on nesting).

func (w *World) handleType(t types.Type) *types.Named {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	for _, k := range []*types.Named{w.M, w.A, w.V} {
		if n.Obj() == k.Obj() {
			return n
		}
	}
	return nil
}

func ghostAdd(st *State, name, v string) {
	old := ""
	if g, ok := st.ghosts[name]; ok {
		old = g.s
	}
	for _, x := range strings.Split(old, "; ") {
		if x == v {
			return
		}
	}
	if old != "" {
		v = old + "; " + v
	}
	st.ghosts[name] = mkStr(v)
}

func ghostHas(st *State, name string) string {
	if g, ok := st.ghosts[name]; ok {
		return g.s
	}
	return ""
}

func isErrs(t types.Type) bool { return isErrSlice(t) }

// failure gives a non-empty error list of unknown content.
func (e *Eng) failure(st *State, site, what string) *Term {
	t := st.symAt(site+"!fail", types.NewSlice(errType))
	st.facts.assume(mkEq(t, tNil), false)
	st.facts.addBound(mkLen(t), big.NewInt(1), nil)
	ghostAdd(st, "failed", what)
	return t
}

var pureOps = []string{"Get", "Is", "Has", "Clone", "ToJSONString", "Len", "Values", "Keys", "Convert"}

func isReadName(n string) bool {
	for _, p := range pureOps {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// kindOps: questions that exclude one another.
var kindOps = map[string]string{"IsMap": "GetMap", "IsArray": "GetArray"}

// handleCall applies the contract of operation name on handle H.
func (w *World) handleCall(e *Eng, st *State, site string, H *Term, n *types.Named, name string, sig *types.Signature, args []*Term, pos token.Pos) []outcome {
	if e.onEvent != nil {
		e.onEvent(st, name, append([]*Term{H}, args...), pos, e.cur)
	}
	key := append([]*Term{H}, args...)
	res := sig.Results()
	if !isReadName(name) {
		ghostAdd(st, "mutated", n.Obj().Name()+"."+name)
	}
	value := func(st *State, t types.Type) *Term {
		if name == "Clone" {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				o := st.alloc(site+"!clone", p.Elem(), mkFn("cloneof", p.Elem(), H))
				return o
			}
			return mkFn("cloneof", t, H)
		}
		return mkFn("res:"+name, t, key...)
	}
	builder := -1
	for i := 0; i < sig.Params().Len(); i++ {
		if isBuilderT(sig.Params().At(i).Type()) {
			builder = i
		}
	}
	last := res.Len() - 1
	if last >= 0 && isErrs(res.At(last).Type()) {
		okAtom := mkFn("ok:"+name, tBool, key...)
		if name == "Clone" {
			okAtom = mkFn("ok:Clone", tBool, H)
		}
		if builder >= 0 {
			okAtom = mkFn("ok:ser", tBool, H)
		}
		return e.forkOn(st, okAtom, func(st *State, ok bool) []outcome {
			var vs []*Term
			for i := 0; i < last; i++ {
				if ok {
					vs = append(vs, value(st, res.At(i).Type()))
				} else {
					vs = append(vs, zeroOf(res.At(i).Type()))
				}
			}
			if builder >= 0 {
				e.builderWrite(st, args[builder], mkFn("ser", tString, H), pos)
			}
			if ok {
				return []outcome{ret(st, append(vs, tNil)...)}
			}
			return []outcome{ret(st, append(vs, e.failure(st, site, n.Obj().Name()+"."+name))...)}
		})
	}
	if res.Len() == 1 && isBoolType(res.At(0).Type()) && isReadName(name) {
		a := mkFn("is:"+name, tBool, key...)
		get := kindOps[name]
		if get == "" {
			return []outcome{ret(st, a)}
		}
		return e.forkOn(st, a, func(st *State, v bool) []outcome {
			if v {
				if f, ok := fieldNamed(n, get); ok {
					e.assume(st, mkFn("ok:"+get, tBool, key...), true)
					e.assume(st, mkEq(mkFn("res:"+get, f.sig.Results().At(0).Type(), key...), tNil), false)
				}
				e.assume(st, mkFn("is:IsNil", tBool, key...), false)
				for o := range kindOps {
					if o != name {
						if !e.assume(st, mkFn("is:"+o, tBool, key...), false) {
							return nil
						}
					}
				}
			}
			return []outcome{ret(st, mkBool(v))}
		})
	}
	var vs []*Term
	for i := 0; i < res.Len(); i++ {
		v := value(st, res.At(i).Type())
		if _, ok := res.At(i).Type().Underlying().(*types.Slice); !ok && name != "GetObject" {
			switch res.At(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Map:
				st.facts.assume(mkEq(v, tNil), false)
			}
		}
		vs = append(vs, v)
	}
	return []outcome{ret(st, vs...)}
}

// handles resolves calls through a field of an opaque document, array or value.
func (w *World) handles(e *Eng) func(st *State, site string, callee *Term, sig *types.Signature, args []*Term, pos token.Pos) ([]outcome, bool) {
	return func(st *State, site string, callee *Term, sig *types.Signature, args []*Term, pos token.Pos) ([]outcome, bool) {
		if callee.op != "sel" || callee.args[0].typ == nil {
			return nil, false
		}
		H := callee.args[0]
		n := w.handleType(H.typ)
		if n == nil {
			return nil, false
		}
		f := n.Underlying().(*types.Struct).Field(fieldIdx(callee))
		return w.handleCall(e, st, site, H, n, f.Name(), sig, args, pos), true
	}
}

// recursion: a serialising or converting function called for a part of the value it was called for.
func (w *World) recursion(e *Eng, safe func(st *State, v *Term) bool) func(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool) {
	return func(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool) {
		on := false
		for _, f := range st.frames {
			if f.fi.fn == fn {
				on = true
			}
		}
		if len(st.frames) == 0 {
			return nil, false
		}
		builder, val := -1, -1
		for i, p := range fn.Params {
			if isBuilderT(p.Type()) {
				builder = i
			} else if types.IsInterface(p.Type()) {
				val = i
			}
		}
		res := fn.Signature.Results()
		if val < 0 || res.Len() == 0 || !isErrs(res.At(res.Len()-1).Type()) {
			return nil, false
		}
		if builder < 0 && !(res.Len() == 2 && isStringType(res.At(0).Type())) {
			return nil, false
		}
		v := args[val]
		if !on {
			// called for a nested instance
			if v.op != "iface" {
				return nil, false
			}
			t := v.typ
			c := v.args[0]
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				if c.op == "nil" {
					return nil, false
				}
				c = st.load(c, t)
			}
			if w.handleType(t) == nil || c.op == "struct" {
				return nil, false
			}
		}
		okAtom := mkFn("ok:ser", tBool, v)
		if safe != nil && safe(st, v) {
			okAtom = tTrue
		}
		return e.forkOn(st, okAtom, func(st *State, ok bool) []outcome {
			var vs []*Term
			if builder >= 0 {
				e.builderWrite(st, args[builder], mkFn("ser", tString, v), pos)
			} else if ok {
				vs = append(vs, mkFn("strof", tString, v))
			} else {
				vs = append(vs, mkStr(""))
			}
			if ok {
				return []outcome{ret(st, append(vs, tNil)...)}
			}
			return []outcome{ret(st, append(vs, e.failure(st, site, fn.Name()))...)}
		}), true
	}
}

// engine with contracts for nested instances.
func (w *World) engine() *Eng {
	e := w.eng()
	e.handles = w.handles(e)
	e.intercept = w.recursion(e, func(st *State, v *Term) bool {
		if v.op == "nil" {
			return true
		}
		if v.op == "iface" {
			return isStringType(v.typ) || isErrorT(v.typ)
		}
		return v.typ != nil && types.IsInterface(v.typ) && isErrorT(v.typ)
	})
	return e
}

// errStatus classifies an error list: none, some, empty (non-nil but empty), unknown.
func errStatus(st *State, t *Term) string {
	if t.op == "nil" || st.facts.isNil(t) {
		return "none"
	}
	lo, hi := st.facts.rng(mkLen(t))
	if lo != nil && lo.Sign() > 0 {
		return "some"
	}
	if hi != nil && hi.Sign() == 0 {
		if st.facts.nonNil(t) {
			return "empty"
		}
		return "none"
	}
	return "unknown"
}
