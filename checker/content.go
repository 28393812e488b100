package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// Content is one kind of thing a value can hold.
type Content struct {
	name   string
	typ    types.Type // dynamic type; nil: no content
	kind   string     // null string bool int uint float time error errors strings map array value func rawmap other
	bits   int
	ptr    bool
	nilPtr bool
	word   bool // text that reads like a word for nil
	empty  bool
}

func (c *Content) String() string { return c.name }

// null: the content counts as missing.
func (c *Content) null() bool { return c.typ == nil || c.nilPtr }

// make builds the content in a state: the interface value, and the term of what it holds (behind the pointer).
func (c *Content) make(st *State) (v, x *Term) {
	if c.typ == nil {
		return tNil, tNil
	}
	if c.nilPtr {
		return mkIface(c.typ, tNil), tNil
	}
	s := mkSym("c", c.typ)
	if c.ptr {
		st.facts.assume(mkEq(s, tNil), false)
		x = mk("deref", "", c.typ.Underlying().(*types.Pointer).Elem(), nil, nil, nil, s)
		if c.kind == "string" {
			return mkIface(c.typ, s), x
		}
		if isErrorT(c.typ) {
			txt := mkFn("errtext", tString, mkIface(c.typ, s))
			st.facts.truth[nilWord(txt)] = c.word
		}
		return mkIface(c.typ, s), x
	}
	switch c.kind {
	case "string":
		st.facts.truth[nilWord(s)] = c.word
	case "error":
		st.facts.truth[nilWord(mkFn("errtext", tString, mkIface(c.typ, s)))] = c.word
		if n, ok := c.typ.(*types.Named); ok && n.Obj().Name() == "ExitError" {
			st.facts.truth[mkFn("nilword", tBool, mkFn("sprint", tString, mkIface(c.typ, s)))] = c.word
		}
	case "func":
		st.facts.assume(mkEq(s, tNil), false)
	case "rawmap":
		st.facts.assume(mkEq(s, tNil), false)
		st.facts.addBound(mapLen(st.load(s, nil)), big.NewInt(1), nil)
	case "errors", "strings", "other":
		switch c.typ.Underlying().(type) {
		case *types.Slice, *types.Signature, *types.Chan:
			st.facts.assume(mkEq(s, tNil), false)
		case *types.Map:
			st.facts.assume(mkEq(s, tNil), false)
			st.facts.addBound(mapLen(st.load(s, nil)), big.NewInt(1), nil)
		}
	}
	return mkIface(c.typ, s), s
}

// data: content that documents hold, serialise and clone.
func (c *Content) data() bool {
	switch c.kind {
	case "null", "string", "bool", "int", "uint", "float", "time", "error", "errors", "strings", "map", "array":
		return true
	}
	return false
}

func (w *World) contents() []*Content {
	var r []*Content
	add := func(name string, t types.Type, kind string, bits int) {
		if t == nil {
			return
		}
		r = append(r, &Content{name: name, typ: t, kind: kind, bits: bits})
	}
	both := func(t types.Type, kind string, bits int) {
		if t == nil {
			return
		}
		n := typeString(t)
		add(n, t, kind, bits)
		p := types.NewPointer(t)
		r = append(r, &Content{name: "*" + n, typ: p, kind: kind, bits: bits, ptr: true})
		r = append(r, &Content{name: "*" + n + " (nil)", typ: p, kind: kind, bits: bits, ptr: true, nilPtr: true})
	}
	r = append(r, &Content{name: "nil", kind: "null"})
	both(types.Typ[types.String], "string", 0)
	r = append(r, &Content{name: "string (a word for nil)", typ: tString, kind: "string", word: true})
	both(types.Typ[types.Bool], "bool", 0)
	for _, b := range []struct {
		k types.BasicKind
		n int
	}{{types.Int, 64}, {types.Int8, 8}, {types.Int16, 16}, {types.Int32, 32}, {types.Int64, 64}} {
		both(types.Typ[b.k], "int", b.n)
	}
	for _, b := range []struct {
		k types.BasicKind
		n int
	}{{types.Uint, 64}, {types.Uint8, 8}, {types.Uint16, 16}, {types.Uint32, 32}, {types.Uint64, 64}} {
		both(types.Typ[b.k], "uint", b.n)
	}
	both(types.Typ[types.Float32], "float", 32)
	both(types.Typ[types.Float64], "float", 64)
	both(timeType, "time", 0)
	// errors: the concrete types an error can have, and pointers to the interface
	ptrErr := func(path, name string) {
		t := w.lookup(path, name)
		if t == nil {
			return
		}
		p := types.NewPointer(t)
		r = append(r, &Content{name: typeString(p), typ: p, kind: "error", ptr: true})
		r = append(r, &Content{name: typeString(p) + " (nil)", typ: p, kind: "error", ptr: true, nilPtr: true})
	}
	ptrErr("errors", "errorString")
	ptrErr("fmt", "wrapError")
	ptrErr("net/url", "Error")
	ptrErr("io/fs", "PathError")
	ptrErr("os/exec", "ExitError")
	add("exec.ExitError", w.lookup("os/exec", "ExitError"), "error", 0)
	if len(r) > 0 && r[len(r)-1].typ != nil && !isErrorT(r[len(r)-1].typ) {
		r[len(r)-1].kind = "error"
	}
	add("syscall.Errno", w.lookup("syscall", "Errno"), "error", 0)
	r = append(r, &Content{name: "*errors.errorString (a word for nil)", typ: errPtr, kind: "error", ptr: true, word: true})
	pe := types.NewPointer(errType)
	r = append(r, &Content{name: "*error", typ: pe, kind: "error", ptr: true})
	r = append(r, &Content{name: "*error (nil)", typ: pe, kind: "error", ptr: true, nilPtr: true})
	both(types.NewSlice(errType), "errors", 0)
	both(types.NewSlice(tString), "strings", 0)
	both(w.M, "map", 0)
	both(w.A, "array", 0)
	both(w.V, "value", 0)
	errsT := types.NewSlice(errType)
	sig := func(ps ...types.Type) types.Type {
		var vs []*types.Var
		for _, p := range ps {
			vs = append(vs, types.NewVar(0, nil, "", p))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), types.NewTuple(types.NewVar(0, nil, "", errsT)), false)
	}
	both(sig(tString), "func", 0)
	both(sig(w.M), "func", 0)
	add("func(string, *string, string, string) []error", sig(tString, types.NewPointer(tString), tString, tString), "func", 0)
	add("func()", types.NewSignatureType(nil, nil, nil, nil, nil, false), "other", 0)
	ss := types.NewSlice(types.NewSlice(tString))
	add("map[string]map[string][][]string", types.NewMap(tString, types.NewMap(tString, ss)), "rawmap", 0)
	add("map[string]interface{}", types.NewMap(tString, anyType), "other", 0)
	add("[]int", types.NewSlice(types.Typ[types.Int]), "other", 0)
	add("[]byte", types.NewSlice(types.Typ[types.Byte]), "other", 0)
	add("[]interface{}", types.NewSlice(anyType), "other", 0)
	add("complex128", types.Typ[types.Complex128], "other", 0)
	add("uintptr", types.Typ[types.Uintptr], "other", 0)
	pany := types.NewPointer(anyType)
	r = append(r, &Content{name: "*interface{}", typ: pany, kind: "other", ptr: true}, &Content{name: "*interface{} (nil)", typ: pany, kind: "other", ptr: true, nilPtr: true})
	add("struct{}", types.NewStruct(nil, nil), "other", 0)
	add("time.Duration", w.lookup("time", "Duration"), "other", 0)
	both(types.NewSlice(types.Typ[types.Rune]), "other", 0)
	add("chan int", types.NewChan(types.SendRecv, types.Typ[types.Int]), "other", 0)
	for _, c := range r {
		if c.name == "chan int" {
			c.nilPtr = false
		}
	}
	_ = fmt.Sprint
	return r
}
