package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// outcome is one way a call can end.
type outcome struct {
	kind string // "ret", "panic", "undecided"
	vals []*Term
	msg  string
	pos  token.Pos
	fn   *ssa.Function
	st   *State
}

// exit is one way a region (function body or loop body) can be left.
type exit struct {
	kind string // "ret", "panic", "undecided", "back", "out"
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	o    outcome
	st   *State
}

// Eng interprets SSA over State to a fixpoint.
type Eng struct {
	prog      *ssa.Program
	inl       func(fn *ssa.Function) bool // functions analysed by their bodies
	intercept func(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool)
	handles   func(st *State, site string, callee *Term, sig *types.Signature, args []*Term, pos token.Pos) ([]outcome, bool)
	onWrite   func(st *State, dst *Term, text *Term, pos token.Pos, fn *ssa.Function)
	onStore   func(st *State, addr, v *Term, pos token.Pos, fn *ssa.Function)
	onBack    func(head *ssa.BasicBlock, h, b *State)
	onEvent   func(st *State, kind string, args []*Term, pos token.Pos, fn *ssa.Function)
	mergeAt   func(fn *ssa.Function) bool
	quiet     int // >0 while a loop is being iterated: nothing is recorded
	steps     int
	budget    int
	trace     bool
	cur       *ssa.Function
	curPos    token.Pos
	fnsSeen   map[*ssa.Function]bool
	loopsSeen map[*ssa.BasicBlock]int
	paths     int
	partsBy   func(st *State) string // additional partition key at loop heads
	depth     int
	auto      *autoPass
	fresh     bool // constructors called inside an operation yield recording containers
}

func newEng(p *ssa.Program) *Eng {
	return &Eng{prog: p, budget: 4000000, fnsSeen: map[*ssa.Function]bool{}, loopsSeen: map[*ssa.BasicBlock]int{}}
}

func ret(st *State, vals ...*Term) outcome { return outcome{kind: "ret", vals: vals, st: st} }

func (e *Eng) site(st *State, in ssa.Instruction) string {
	f := st.top()
	if v, ok := in.(ssa.Value); ok {
		return f.ctx + "." + v.Name()
	}
	return f.ctx + ".i" + strconv.Itoa(int(in.Pos()))
}

var ctxIDs = map[string]int{}
var ctxNames []string

func ctxID(s string) string {
	id, ok := ctxIDs[s]
	if !ok {
		id = len(ctxNames)
		ctxIDs[s] = id
		ctxNames = append(ctxNames, s)
	}
	return "c" + strconv.Itoa(id)
}

// call analyses one call of a function with a body.
func (e *Eng) call(st *State, site string, fn *ssa.Function, args, bind []*Term) []outcome {
	if len(st.frames) > 40 {
		return []outcome{{kind: "undecided", msg: "call depth", st: st, fn: fn, pos: fn.Pos()}}
	}
	for _, f := range st.frames {
		if f.fi.fn == fn {
			return []outcome{{kind: "undecided", msg: "recursive call of " + fn.String(), st: st, fn: fn, pos: fn.Pos()}}
		}
	}
	fi := infoOf(fn)
	if fi.bad != "" || len(fn.Blocks) == 0 {
		return []outcome{{kind: "undecided", msg: "no analysable body: " + fn.String() + " " + fi.bad, st: st, fn: fn, pos: fn.Pos()}}
	}
	e.fnsSeen[fn] = true
	st.push(fi, ctxID(site+">"+fn.String()))
	for i, p := range fn.Params {
		if i < len(args) {
			st.set(p, args[i])
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			st.set(p, bind[i])
		}
	}
	exits := e.goEdge(st, nil, fn.Blocks[0], nil)
	var outs []outcome
	for _, x := range exits {
		o := x.o
		o.kind = x.kind
		o.st = x.st
		if x.kind == "ret" {
			o.st.pop()
		}
		outs = append(outs, o)
	}
	if e.mergeAt != nil && e.mergeAt(fn) {
		outs = e.mergeOutcomes(outs, site)
	}
	return outs
}

func undecided(st *State, pos token.Pos, fn *ssa.Function, f string, a ...interface{}) []exit {
	return []exit{{kind: "undecided", o: outcome{msg: fmt.Sprintf(f, a...), pos: pos, fn: fn}, st: st}}
}

// goEdge follows a control-flow edge inside region (nil: whole function).
func (e *Eng) goEdge(st *State, from, to *ssa.BasicBlock, region *loopInfo) []exit {
	if region != nil {
		if to == region.head {
			return []exit{{kind: "back", from: from, to: to, st: st}}
		}
		if !region.body[to] {
			return []exit{{kind: "out", from: from, to: to, st: st}}
		}
	}
	fi := st.top().fi
	e.setPhis(st, from, to)
	if l, ok := fi.loops[to]; ok {
		var res []exit
		for _, x := range e.runLoop(st, l) {
			if x.kind == "out" {
				res = append(res, e.goEdge(x.st, x.from, x.to, region)...)
			} else {
				res = append(res, x)
			}
		}
		return res
	}
	return e.runBlock(st, to, 0, region)
}

func (e *Eng) setPhis(st *State, from, to *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
			break
		}
	}
	var vs []*Term
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, e.val(st, ph.Edges[pi]))
	}
	for i, v := range vs {
		st.set(to.Instrs[i].(*ssa.Phi), v)
	}
}

func (e *Eng) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return mkClo(v)
	case *ssa.Global:
		return mkAddr(globalObj(v))
	case *ssa.Builtin:
		return mkFn("builtin:"+v.Name(), nil)
	}
	f := st.top()
	n, ok := f.fi.num[v]
	if !ok {
		return mkFn("unknown", v.Type())
	}
	t := f.env[n]
	if t == nil {
		return mkSym("undef:"+v.Name(), v.Type())
	}
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch {
	case isBoolType(c.Type()):
		return mkBool(constant.BoolVal(c.Value))
	case isStringType(c.Type()):
		return mkStr(constant.StringVal(c.Value))
	case isIntType(c.Type()):
		b, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if ok {
			return mkBig(b)
		}
	case isFloatType(c.Type()):
		return mkFloat(c.Value.ExactString())
	}
	return mkFn("const:"+c.Value.ExactString(), c.Type())
}

// runBlock interprets the instructions of a block from i on.
func (e *Eng) runBlock(st *State, b *ssa.BasicBlock, i int, region *loopInfo) []exit {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.budget {
			return undecided(st, b.Instrs[i].Pos(), b.Parent(), "analysis budget exceeded")
		}
		in := b.Instrs[i]
		e.cur = b.Parent()
		if in.Pos().IsValid() {
			e.curPos = in.Pos()
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return e.goEdge(st, b, b.Succs[0], region)
		case *ssa.If:
			c := e.val(st, in.Cond)
			switch st.facts.eval(c) {
			case 1:
				return e.goEdge(st, b, b.Succs[0], region)
			case -1:
				return e.goEdge(st, b, b.Succs[1], region)
			}
			e.paths++
			s2 := st.clone()
			var res []exit
			for _, s := range e.assumeCases(st, c, true) {
				res = append(res, e.goEdge(s, b, b.Succs[0], region)...)
			}
			for _, s := range e.assumeCases(s2, c, false) {
				res = append(res, e.goEdge(s, b, b.Succs[1], region)...)
			}
			return res
		case *ssa.Return:
			var vs []*Term
			for _, r := range in.Results {
				vs = append(vs, e.val(st, r))
			}
			return []exit{{kind: "ret", o: outcome{vals: vs, pos: in.Pos(), fn: b.Parent()}, st: st}}
		case *ssa.Panic:
			return []exit{{kind: "panic", o: outcome{msg: "explicit panic", pos: in.Pos(), fn: b.Parent()}, st: st}}
		default:
			states, exits := e.instr(st, in)
			if len(states) == 1 && len(exits) == 0 {
				st = states[0]
				continue
			}
			for _, s := range states {
				exits = append(exits, e.runBlock(s, b, i+1, region)...)
			}
			return exits
		}
	}
	return nil
}

func (e *Eng) assume(st *State, c *Term, v bool) bool {
	if !st.facts.assume(c, v) {
		return false
	}
	return true
}

// assumeCases assumes c; the alternatives of a disjunction are told apart.
func (e *Eng) assumeCases(st *State, c *Term, v bool) []*State {
	for c.op == "not" {
		c, v = c.args[0], !v
	}
	if c.op != "and" || v || len(c.args) > 8 {
		if e.assume(st, c, v) {
			return one(st)
		}
		return nil
	}
	var rs []*State
	for _, k := range c.args {
		if s := st.clone(); e.assume(s, k, false) {
			rs = append(rs, s)
		}
		if !e.assume(st, k, true) {
			break
		}
	}
	return rs
}

func (e *Eng) panicExit(st *State, in ssa.Instruction, f string, a ...interface{}) exit {
	pos := in.Pos()
	if !pos.IsValid() {
		pos = e.curPos
	}
	return exit{kind: "panic", o: outcome{msg: fmt.Sprintf(f, a...), pos: pos, fn: in.Parent()}, st: st}
}

// need forks on cond: the path on which it is false ends in a panic with msg.
func (e *Eng) need(st *State, cond *Term, in ssa.Instruction, msg string) (*State, []exit) {
	switch st.facts.eval(cond) {
	case 1:
		return st, nil
	case -1:
		return nil, []exit{e.panicExit(st, in, "%s", msg)}
	}
	bad := st.clone()
	var ex []exit
	if e.assume(bad, cond, false) {
		if beyond(cond) {
			ghostAdd(bad, "beyond", msg)
		}
		ex = append(ex, e.panicExit(bad, in, "%s", msg))
	}
	if !e.assume(st, cond, true) {
		return nil, ex
	}
	return st, ex
}

func (e *Eng) needNonNil(st *State, p *Term, in ssa.Instruction, what string) (*State, []exit) {
	if p.op == "addr" {
		if p.args[0].op == "obj" {
			return st, nil
		}
		p = p.args[0]
	}
	return e.need(st, mkNot(mkEq(p, tNil)), in, "nil dereference of "+what)
}

func one(st *State) []*State {
	if st == nil {
		return nil
	}
	return []*State{st}
}

func (e *Eng) instr(st *State, in ssa.Instruction) ([]*State, []exit) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if nm, ok := t.(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "strings" && nm.Obj().Name() == "Builder" {
			st.set(in, st.alloc(e.site(st, in), t, mkSeq()))
			return one(st), nil
		}
		st.set(in, st.alloc(e.site(st, in), t, zeroOf(t)))
		return one(st), nil
	case *ssa.FieldAddr:
		p := e.val(st, in.X)
		st, ex := e.needNonNil(st, p, in, in.X.Name())
		if st != nil {
			st.set(in, addrStep(p, mkField(in.Field)))
		}
		return one(st), ex
	case *ssa.Field:
		st.set(in, mkSel(e.val(st, in.X), in.Field, in.Type()))
		return one(st), nil
	case *ssa.IndexAddr:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
			st, ex := e.needNonNil(st, x, in, "array pointer")
			if st == nil {
				return nil, ex
			}
			n := pt.Elem().Underlying().(*types.Array).Len()
			st, ex2 := e.need(st, inRange(i, mkInt(n)), in, "index out of range")
			if st != nil {
				st.set(in, addrStep(x, mkElemStep(i)))
			}
			return one(st), append(ex, ex2...)
		}
		st, ex := e.need(st, inRange(i, mkLen(x)), in, "index out of range")
		if st == nil {
			return nil, ex
		}
		st.set(in, elemAddr(x, i))
		return one(st), ex
	case *ssa.Index:
		x, i := e.val(st, in.X), e.val(st, in.Index)
		st, ex := e.need(st, inRange(i, mkLen(x)), in, "index out of range")
		if st == nil {
			return nil, ex
		}
		if isStringType(in.X.Type()) {
			st.set(in, mkByteAt(x, i))
		} else {
			return e.byEntry(st, in, st.elem(x, i, in.Type())), ex
		}
		return one(st), ex
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.BinOp:
		return e.binop(st, in)
	case *ssa.Store:
		p := e.val(st, in.Addr)
		v := e.val(st, in.Val)
		st, ex := e.needNonNil(st, p, in, in.Addr.Name())
		if st != nil {
			e.doStore(st, p, v, in.Val.Type(), in.Pos())
		}
		return one(st), ex
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, e.val(st, x))
		}
		st.set(in, mkClo(in.Fn.(*ssa.Function), b...))
		return one(st), nil
	case *ssa.MakeInterface:
		st.set(in, mkIface(in.X.Type(), e.val(st, in.X)))
		return one(st), nil
	case *ssa.ChangeInterface:
		st.set(in, e.val(st, in.X))
		return one(st), nil
	case *ssa.ChangeType:
		st.set(in, e.val(st, in.X))
		return one(st), nil
	case *ssa.Convert:
		if x := e.val(st, in.X); x.op == "fn" && x.s == "rune1" && isStringType(in.Type()) {
			ascii := mkLt0(tAddC(x.args[0], -128))
			var rs []*State
			for _, v := range []bool{true, false} {
				if s := st.clone(); e.assume(s, ascii, v) {
					s.set(in, runeString(s, x))
					rs = append(rs, s)
				}
			}
			return rs, nil
		}
		t, ss, ex := e.convert(st, in)
		if ss == nil {
			return nil, ex
		}
		ss.set(in, t)
		return one(ss), ex
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		return nil, undecided(st, in.Pos(), in.Parent(), "unsupported conversion")
	case *ssa.TypeAssert:
		return e.typeAssert(st, in)
	case *ssa.Extract:
		tp := e.val(st, in.Tuple)
		st.set(in, mkProj(tp, in.Index, in.Type()))
		return one(st), nil
	case *ssa.MakeMap:
		st.set(in, st.alloc(e.site(st, in), in.Type(), mk("mempty", "", in.Type(), nil, nil, nil)))
		return one(st), nil
	case *ssa.MakeSlice:
		n := e.val(st, in.Len)
		st, ex := e.need(st, mkNot(mkLt0(n)), in, "negative slice length")
		if st == nil {
			return nil, ex
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		var seq *Term
		if k, ok := n.smallInt(); ok && k <= 64 {
			var a []*Term
			for j := int64(0); j < k; j++ {
				a = append(a, zeroOf(el))
			}
			seq = mkSeq(a...)
		} else {
			seq = mkSmap(mkInt(0), n, []smapCase{{piece: mkSeq(zeroOf(el))}})
		}
		st.set(in, st.newSlice(e.site(st, in), el, seq, false))
		return one(st), ex
	case *ssa.Slice:
		return e.slice(st, in)
	case *ssa.Lookup:
		x, k := e.val(st, in.X), e.val(st, in.Index)
		if isStringType(in.X.Type()) {
			st, ex := e.need(st, inRange(k, mkLen(x)), in, "index out of range")
			if st != nil {
				st.set(in, mkByteAt(x, k))
			}
			return one(st), ex
		}
		mt := in.X.Type().Underlying().(*types.Map)
		return e.lookup(st, in, x, k, mt.Elem(), in.CommaOk)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, in.Map), e.val(st, in.Key), e.val(st, in.Value)
		st, ex := e.needNonNil(st, m, in, "map written")
		if st != nil {
			st.store(m, mk("mstore", "", nil, nil, nil, nil, st.load(m, nil), k, v))
			if e.onStore != nil {
				e.onStore(st, m, v, in.Pos(), in.Parent())
			}
		}
		return one(st), ex
	case *ssa.Range:
		x := e.val(st, in.X)
		p := st.alloc(e.site(st, in), types.Typ[types.Int], mkInt(0))
		st.set(in, mk("iter", "", in.X.Type(), nil, nil, nil, x, p))
		return one(st), nil
	case *ssa.Next:
		return e.next(st, in)
	case *ssa.Call:
		return e.callInstr(st, in)
	case *ssa.RunDefers:
		return one(st), nil
	case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return nil, undecided(st, in.Pos(), in.Parent(), "unsupported instruction %T", in)
	}
	return nil, undecided(st, in.Pos(), in.Parent(), "unsupported instruction %T", in)
}

func inRange(i, n *Term) *Term {
	lo, hi := mkNot(mkLt0(i)), mkLt0(tSub(i, n))
	if lo == tTrue {
		return hi
	}
	if hi == tFalse || lo == tFalse {
		return tFalse
	}
	if hi == tTrue {
		return lo
	}
	return mk("and", "", nil, nil, nil, nil, lo, hi)
}

func addrStep(p, step *Term) *Term {
	if p.op == "addr" {
		return mkAddr(p.args[0], append(append([]*Term{}, p.args[1:]...), step)...)
	}
	return mkAddr(p, step)
}

// elemAddr is the address of element i of a slice value.
func elemAddr(x, i *Term) *Term {
	if x.op == "slice" {
		b := x.args[0]
		idx := tAdd(x.args[1], i)
		if b.op == "addr" {
			return addrStep(b, mkElemStep(idx))
		}
		return mkAddr(b, mkElemStep(idx))
	}
	return mkAddr(x, mkElemStep(i))
}

func (e *Eng) doStore(st *State, p, v *Term, vt types.Type, pos token.Pos) {
	base := p
	if p.op == "addr" {
		base = p.args[0]
	}
	if base.op != "obj" && p.op != "addr" || p.op == "addr" && base.op != "obj" && len(p.args) == 1 {
		// a pointer of unknown target: every cell of that type may change
		for o := range st.heap {
			if o != base && o.typ != nil && (o.op == "obj" && types.Identical(o.typ, vt) || o.op != "obj" && derefType(o) != nil && types.Identical(derefType(o), vt)) {
				if isIntType(vt) || isBoolType(vt) || isFloatType(vt) || isStringType(vt) {
					if e.escaped(o) {
						st.heap[o] = mkFn("lost", vt, o, v)
					}
				}
			}
		}
	}
	if e.onStore != nil {
		e.onStore(st, p, v, pos, e.cur)
	}
	st.store(p, v)
}

// escaped objects are those whose address an opaque container may hold.
func (e *Eng) escaped(o *Term) bool { return o.op != "obj" || escapedObjs[o] }

var escapedObjs = map[*Term]bool{}

func markEscaped(t *Term) {
	walk(t, func(x *Term) bool {
		if x.op == "obj" {
			escapedObjs[x] = true
		}
		return true
	})
}

func (e *Eng) unop(st *State, in *ssa.UnOp) ([]*State, []exit) {
	x := e.val(st, in.X)
	switch in.Op {
	case token.MUL:
		st, ex := e.needNonNil(st, x, in, in.X.Name())
		if st == nil {
			return nil, ex
		}
		return e.byEntry(st, in, st.load(x, in.Type())), ex
	case token.NOT:
		st.set(in, mkNot(x))
		return one(st), nil
	case token.SUB:
		if isIntType(in.Type()) {
			st.set(in, e.fit(st, tScale(x, -1), in.Type()))
		} else {
			st.set(in, mkFn("neg", in.Type(), x))
		}
		return one(st), nil
	case token.XOR:
		if c, ok := x.constInt(); ok {
			v := new(big.Int).Not(c)
			if lo, _ := intRange(in.Type()); lo != nil && lo.Sign() == 0 {
				_, hi := intRange(in.Type())
				v = new(big.Int).Sub(hi, c)
			}
			st.set(in, mkBig(v))
		} else {
			st.set(in, mkFn("compl", in.Type(), x))
		}
		return one(st), nil
	}
	return nil, undecided(st, in.Pos(), in.Parent(), "unsupported operator %s", in.Op)
}

// fit keeps a linear integer when it cannot leave the range of its type, else wraps it.
func (e *Eng) fit(st *State, v *Term, t types.Type) *Term {
	if c, ok := v.constInt(); ok {
		lo, hi := intRange(t)
		if lo != nil && (c.Cmp(lo) < 0 || c.Cmp(hi) > 0) {
			return mkBig(wrapConst(c, t))
		}
		return v
	}
	lo, hi := intRange(t)
	a, b := st.facts.rng(v)
	if lo != nil && a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return v
	}
	// sizes and counts stay far below the 64 bit limits
	if lo != nil && hi.BitLen() >= 63 && e.countLike(v) {
		if lo.Sign() < 0 || a != nil && a.Sign() >= 0 {
			return v
		}
	}
	return mk("wrap", "", t, nil, nil, nil, v)
}

func (e *Eng) countLike(v *Term) bool {
	l := toLin(v)
	for a := range l.m {
		switch {
		case a.op == "len", a.op == "byteat":
		case a.op == "sym" && a.hasSym("L"), a.op == "sym" && strings.HasPrefix(a.s, "X"):
		case a.op == "fn" && (a.s == "count" || a.s == "index" || a.s == "lost" || a.s == "width"):
		case a.op == "deref":
		default:
			return false
		}
	}
	return l.c.BitLen() < 40
}

func wrapConst(c *big.Int, t types.Type) *big.Int {
	lo, hi := intRange(t)
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	r := new(big.Int).Sub(c, lo)
	r.Mod(r, m)
	return r.Add(r, lo)
}

func (e *Eng) binop(st *State, in *ssa.BinOp) ([]*State, []exit) {
	x, y := e.val(st, in.X), e.val(st, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		r := e.equal(st, x, y, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			r = mkNot(r)
		}
		st.set(in, r)
		return one(st), nil
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var r *Term
		if isIntType(t) {
			switch in.Op {
			case token.LSS:
				r = tLess(x, y)
			case token.GTR:
				r = tLess(y, x)
			case token.LEQ:
				r = tLeq(x, y)
			default:
				r = tLeq(y, x)
			}
		} else {
			switch in.Op {
			case token.LSS:
				r = mkFn("less", types.Typ[types.Bool], x, y)
			case token.GTR:
				r = mkFn("less", types.Typ[types.Bool], y, x)
			case token.LEQ:
				r = mkFn("leq", types.Typ[types.Bool], x, y)
			default:
				r = mkFn("leq", types.Typ[types.Bool], y, x)
			}
		}
		st.set(in, r)
		return one(st), nil
	case token.ADD:
		if isStringType(t) {
			st.set(in, mkCat(x, y))
		} else if isIntType(t) {
			st.set(in, e.fit(st, tAdd(x, y), in.Type()))
		} else {
			st.set(in, mkFn("add", in.Type(), x, y))
		}
		return one(st), nil
	case token.SUB:
		if isIntType(t) {
			st.set(in, e.fit(st, tSub(x, y), in.Type()))
		} else {
			st.set(in, mkFn("sub", in.Type(), x, y))
		}
		return one(st), nil
	case token.MUL:
		if isIntType(t) {
			if k, ok := y.smallInt(); ok {
				st.set(in, e.fit(st, tScale(x, k), in.Type()))
				return one(st), nil
			}
			if k, ok := x.smallInt(); ok {
				st.set(in, e.fit(st, tScale(y, k), in.Type()))
				return one(st), nil
			}
		}
		st.set(in, mkFn("mul", in.Type(), x, y))
		return one(st), nil
	case token.QUO, token.REM:
		var ex []exit
		if isIntType(t) {
			st, ex = e.need(st, mkNot(mkEq0(y)), in, "division by zero")
			if st == nil {
				return nil, ex
			}
			if a, ok := x.constInt(); ok {
				if b, ok := y.constInt(); ok {
					r := new(big.Int)
					if in.Op == token.QUO {
						r.Quo(a, b)
					} else {
						r.Rem(a, b)
					}
					st.set(in, mkBig(r))
					return one(st), ex
				}
			}
		}
		q := mkFn(in.Op.String(), in.Type(), x, y)
		if isIntType(t) {
			nonlinear(st, in.Op, q, x, y)
		}
		st.set(in, q)
		return one(st), ex
	default:
		if a, ok := x.constInt(); ok {
			if b, ok := y.constInt(); ok {
				r := new(big.Int)
				switch in.Op {
				case token.AND:
					r.And(a, b)
				case token.OR:
					r.Or(a, b)
				case token.XOR:
					r.Xor(a, b)
				case token.AND_NOT:
					r.AndNot(a, b)
				case token.SHL:
					if b.IsInt64() && b.Int64() < 200 {
						r.Lsh(a, uint(b.Int64()))
					}
				case token.SHR:
					if b.IsInt64() && b.Int64() < 200 {
						r.Rsh(a, uint(b.Int64()))
					}
				}
				st.set(in, mkBig(wrapConst(r, in.Type())))
				return one(st), nil
			}
		}
		q := mkFn(in.Op.String(), in.Type(), x, y)
		if isIntType(t) {
			nonlinear(st, in.Op, q, x, y)
		}
		st.set(in, q)
		return one(st), nil
	}
}

// nonlinear records what is known of a quotient, remainder, shift or mask.
func nonlinear(st *State, op token.Token, q, x, y *Term) {
	lo, _ := st.facts.rng(x)
	ylo, yhi := st.facts.rng(y)
	pos := lo != nil && lo.Sign() >= 0
	zero := new(big.Int)
	switch op {
	case token.QUO, token.SHR:
		if pos && ylo != nil && ylo.Sign() >= 0 {
			st.facts.addBound(q, zero, nil)
			st.facts.assume(tLeq(q, x), true)
		}
	case token.REM:
		if pos {
			st.facts.addBound(q, zero, nil)
			st.facts.assume(tLeq(q, x), true)
		}
		if ylo != nil && ylo.Sign() > 0 {
			st.facts.assume(tLess(q, y), true)
			if !pos {
				st.facts.assume(tLess(tScale(y, -1), q), true)
			}
		}
	case token.AND:
		if pos {
			st.facts.addBound(q, zero, nil)
			st.facts.assume(tLeq(q, x), true)
		}
		if ylo != nil && ylo.Sign() >= 0 {
			st.facts.addBound(q, zero, yhi)
			st.facts.assume(tLeq(q, y), true)
		}
	}
}

// beyond: the term is arithmetic that the analysis does not follow exactly.
func beyond(t *Term) bool {
	r := false
	walk(t, func(x *Term) bool {
		if x.op == "fn" {
			switch x.s {
			case "/", "%", "<<", ">>", "&", "|", "^", "&^", "mul":
				r = true
			}
		}
		return !r
	})
	return r
}

// equal compares values of Go types tx and ty.
func (e *Eng) equal(st *State, x, y *Term, tx, ty types.Type) *Term {
	ix, iy := types.IsInterface(tx), types.IsInterface(ty)
	if ix && !iy {
		y = mkIface(ty, y)
	}
	if iy && !ix {
		x = mkIface(tx, x)
	}
	if sl, ok := tx.Underlying().(*types.Slice); ok && sl != nil {
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if p[1].op == "nil" {
				switch {
				case p[0].op == "nil":
					return tTrue
				case p[0].op == "slice" && p[0].s == "?":
					return mkEq0(p[0].args[2]) // treated as nil exactly when empty
				case p[0].op == "slice":
					return tFalse
				}
			}
		}
	}
	if isBoolType(tx) {
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			switch st.facts.eval(p[0]) {
			case 1:
				return p[1]
			case -1:
				return mkNot(p[1])
			}
		}
	}
	return mkEq(x, y)
}

func (e *Eng) convert(st *State, in *ssa.Convert) (*Term, *State, []exit) {
	x := e.val(st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	switch {
	case isIntType(from) && isIntType(to):
		if c, ok := x.constInt(); ok {
			return mkBig(wrapConst(c, to)), st, nil
		}
		lo, hi := intRange(to)
		a, b := st.facts.rng(x)
		if a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
			return x, st, nil
		}
		if flo, fhi := intRange(from); flo != nil && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return x, st, nil
		}
		if hi.BitLen() >= 63 && e.countLike(x) && (lo.Sign() < 0 || a != nil && a.Sign() >= 0) {
			return x, st, nil
		}
		if x.op == "wrap" {
			x = mk("wrap", "", in.X.Type(), nil, nil, nil, x.args[0])
		}
		return mk("wrap", "", in.Type(), nil, nil, nil, x), st, nil
	case isStringType(from) && isStringType(to):
		return x, st, nil
	case isIntType(from) && isStringType(to):
		return runeString(st, x), st, nil
	case isIntType(from) && isFloatType(to), isFloatType(from) && isFloatType(to):
		return convFloat(x, from, to), st, nil
	case isFloatType(from) && isIntType(to):
		return mkFn("ftoi", in.Type(), x), st, nil
	}
	if isStringType(from) {
		if sl, ok := to.(*types.Slice); ok {
			n := sl.Elem().Underlying().(*types.Basic).Kind()
			if n == types.Uint8 {
				seq := mkFn("bytes", in.Type(), x)
				if x.op == "str" && len(x.s) < 64 {
					var a []*Term
					for i := 0; i < len(x.s); i++ {
						a = append(a, mkInt(int64(x.s[i])))
					}
					seq = mkSeq(a...)
				}
				return st.newSlice(e.site(st, in), sl.Elem(), seq, false), st, nil
			}
			var seq *Term
			if l, ok := mkLen(x).smallInt(); ok && l == 1 {
				seq = mkSeq(mkFn("rune1", types.Typ[types.Int32], mkByteAt(x, mkInt(0))))
			} else if x.op == "str" {
				var a []*Term
				for _, r := range x.s {
					a = append(a, mkInt(int64(r)))
				}
				seq = mkSeq(a...)
			} else {
				seq = mkFn("runes", in.Type(), x)
			}
			return st.newSlice(e.site(st, in), sl.Elem(), seq, false), st, nil
		}
	}
	if isStringType(to) {
		if sl, ok := from.(*types.Slice); ok {
			q := st.seqOf(x)
			if q.op == "fn" && (q.s == "bytes" || q.s == "runes") {
				return q.args[0], st, nil // runes of well formed text
			}
			_ = sl
			return mkFn("text", in.Type(), q), st, nil
		}
	}
	return mkFn("conv", in.Type(), x), st, nil
}

func convFloat(x *Term, from, to types.Type) *Term {
	if x.op == "float" && types.Identical(from, to) {
		return x
	}
	fb, tb := from.(*types.Basic), to.(*types.Basic)
	if fb.Kind() == tb.Kind() {
		return x
	}
	if tb.Kind() == types.Float32 && x.op == "fn" && x.s == "tofloat64" && isFloatType(x.args[0].typ) {
		return x.args[0]
	}
	if x.op == "int" && tb.Kind() == types.Float64 && x.c.BitLen() <= 53 {
		return mkFloat(x.c.String())
	}
	return mkFn("to"+tb.Name(), types.Typ[tb.Kind()], x)
}

func runeString(st *State, x *Term) *Term {
	if c, ok := x.smallInt(); ok {
		return mkStr(string(rune(c)))
	}
	if x.op == "fn" && x.s == "rune1" {
		lo, hi := st.facts.rng(x.args[0])
		if hi != nil && hi.Cmp(big.NewInt(128)) < 0 {
			return byteStr(x.args[0])
		}
		if lo != nil && lo.Cmp(big.NewInt(128)) >= 0 {
			return mkStr("\ufffd")
		}
	}
	if lo, hi := st.facts.rng(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(128)) < 0 {
		return byteStr(x)
	}
	return mkFn("runestr", types.Typ[types.String], x)
}

func (e *Eng) slice(st *State, in *ssa.Slice) ([]*State, []exit) {
	x := e.val(st, in.X)
	isStr := isStringType(in.X.Type())
	var lo, hi *Term
	if in.Low != nil {
		lo = e.val(st, in.Low)
	} else {
		lo = mkInt(0)
	}
	var ex []exit
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		var e1 []exit
		st, e1 = e.needNonNil(st, x, in, "array pointer")
		ex = append(ex, e1...)
		if st == nil {
			return nil, ex
		}
		n := mkInt(pt.Elem().Underlying().(*types.Array).Len())
		hi = n
		if in.High != nil {
			hi = e.val(st, in.High)
		}
		var e2 []exit
		st, e2 = e.need(st, between(lo, hi, n), in, "slice bounds out of range")
		ex = append(ex, e2...)
		if st == nil {
			return nil, ex
		}
		b := x
		if b.op == "addr" && len(b.args) == 1 {
			b = b.args[0]
		}
		st.set(in, mk("slice", "", nil, nil, nil, nil, b, lo, tSub(hi, lo)))
		return one(st), ex
	}
	n := mkLen(x)
	hi = n
	if in.High != nil {
		hi = e.val(st, in.High)
	}
	var e2 []exit
	if isStr {
		st, e2 = e.need(st, between(lo, hi, n), in, "slice bounds out of range")
		ex = append(ex, e2...)
		if st == nil {
			return nil, ex
		}
		st.set(in, mkSubstr(x, lo, hi))
		return one(st), ex
	}
	// the capacity is at least the length; bounds beyond the length are not accepted as safe
	st, e2 = e.need(st, between(lo, hi, n), in, "slice bounds out of range")
	ex = append(ex, e2...)
	if st == nil {
		return nil, ex
	}
	switch x.op {
	case "nil":
		st.set(in, tNil)
	case "slice":
		st.set(in, mk("slice", x.s, nil, nil, nil, nil, x.args[0], tAdd(x.args[1], lo), tSub(hi, lo)))
	default:
		if k, ok := lo.smallInt(); ok && k == 0 && hi == n {
			st.set(in, x)
		} else {
			st.set(in, mk("slice", "?", nil, nil, nil, nil, x, lo, tSub(hi, lo)))
		}
	}
	return one(st), ex
}

func between(lo, hi, n *Term) *Term {
	cs := []*Term{mkNot(mkLt0(lo)), tLeq(lo, hi), tLeq(hi, n)}
	var k []*Term
	for _, c := range cs {
		if c == tFalse {
			return tFalse
		}
		if c != tTrue {
			k = append(k, c)
		}
	}
	if len(k) == 0 {
		return tTrue
	}
	if len(k) == 1 {
		return k[0]
	}
	return mk("and", "", nil, nil, nil, nil, k...)
}

// ---- maps ----

// mget/mhas see through stores and deletes with known key relations.
func (e *Eng) mapRead(st *State, m, k *Term, el types.Type) (has, val *Term, ambiguous *Term) {
	for {
		switch m.op {
		case "mempty", "nil":
			return tFalse, zeroOf(el), nil
		case "mstore":
			switch st.facts.eval(mkEq(m.args[1], k)) {
			case 1:
				return tTrue, m.args[2], nil
			case -1:
				m = m.args[0]
				continue
			}
			return nil, nil, mkEq(m.args[1], k)
		case "mdel":
			switch st.facts.eval(mkEq(m.args[1], k)) {
			case 1:
				return tFalse, zeroOf(el), nil
			case -1:
				m = m.args[0]
				continue
			}
			return nil, nil, mkEq(m.args[1], k)
		}
		h := mk("mhas", "", types.Typ[types.Bool], nil, nil, nil, m, k)
		return h, mk("mget", "", el, nil, nil, nil, m, k), nil
	}
}

func (e *Eng) lookup(st *State, in ssa.Value, x, k *Term, el types.Type, commaOk bool) ([]*State, []exit) {
	var m *Term
	if x.op == "nil" {
		m = x
	} else {
		m = st.load(x, nil)
	}
	has, val, amb := e.mapRead(st, m, k, el)
	if amb != nil {
		s2 := st.clone()
		var rs []*State
		for i, s := range []*State{st, s2} {
			if e.assume(s, amb, i == 0) {
				r, _ := e.lookup(s, in, x, k, el, commaOk)
				rs = append(rs, r...)
			}
		}
		return rs, nil
	}
	set := func(s *State, h, v *Term) *State {
		if commaOk {
			s.set(in, mkTuple(v, h))
		} else {
			s.set(in, v)
		}
		return s
	}
	switch st.facts.eval(has) {
	case 1:
		return one(set(st, tTrue, val)), nil
	case -1:
		return one(set(st, tFalse, zeroOf(el))), nil
	}
	s2 := st.clone()
	var rs []*State
	if e.assume(st, has, true) {
		rs = append(rs, set(st, tTrue, val))
	}
	if e.assume(s2, has, false) {
		rs = append(rs, set(s2, tFalse, zeroOf(el)))
	}
	return rs, nil
}

func (e *Eng) next(st *State, in *ssa.Next) ([]*State, []exit) {
	it := e.val(st, in.Iter)
	if it.op != "iter" {
		return nil, undecided(st, in.Pos(), in.Parent(), "unknown iterator")
	}
	x, cell := it.args[0], it.args[1]
	tp := in.Type().(*types.Tuple)
	if in.IsString {
		p := st.load(cell, nil)
		s2 := st.clone()
		var rs []*State
		more := tLess(p, mkLen(x))
		if e.assume(st, more, true) {
			b := mkByteAt(x, p)
			ascii := tLess(b, mkInt(128))
			s3 := st.clone()
			if e.assume(st, ascii, true) {
				st.store(cell, tAddC(p, 1))
				st.set(in, mkTuple(tTrue, p, b))
				rs = append(rs, st)
			}
			if e.assume(s3, ascii, false) {
				w := s3.symAt(e.site(s3, in)+"w", types.Typ[types.Int])
				s3.facts.addBound(w, big.NewInt(1), big.NewInt(4))
				s3.facts.addBound(tSub(tSub(mkLen(x), p), w), new(big.Int), nil)
				s3.store(cell, tAdd(p, w))
				s3.set(in, mkTuple(tTrue, p, mkFn("decoderune", types.Typ[types.Int32], x, p)))
				rs = append(rs, s3)
			}
		}
		if e.assume(s2, more, false) {
			s2.set(in, mkTuple(tFalse, mkInt(0), mkInt(0)))
			rs = append(rs, s2)
		}
		return rs, nil
	}
	m := tNil
	if x.op != "nil" {
		m = st.load(x, nil)
	}
	mt := it.typ.Underlying().(*types.Map)
	s2 := st.clone()
	s2.set(in, mkTuple(tFalse, zeroOf(mt.Key()), zeroOf(mt.Elem())))
	rs := []*State{s2}
	if m.op == "mempty" || m.op == "nil" {
		return rs, nil
	}
	k := st.symAt(e.site(st, in)+"k", mt.Key())
	v := mk("mget", "", mt.Elem(), nil, nil, nil, m, k)
	if e.assume(st, mk("mhas", "", types.Typ[types.Bool], nil, nil, nil, m, k), true) {
		st.set(in, mkTuple(tTrue, k, v))
		rs = append(rs, st)
	}
	_ = tp
	return rs, nil
}

// ---- type assertions ----

func (e *Eng) typeAssert(st *State, in *ssa.TypeAssert) ([]*State, []exit) {
	x := e.val(st, in.X)
	T := in.AssertedType
	okRes := func(s *State, v *Term) []*State {
		if in.CommaOk {
			s.set(in, mkTuple(v, tTrue))
		} else {
			s.set(in, v)
		}
		return one(s)
	}
	failRes := func(s *State, why string) ([]*State, []exit) {
		if in.CommaOk {
			s.set(in, mkTuple(zeroOf(T), tFalse))
			return one(s), nil
		}
		return nil, []exit{e.panicExit(s, in, "type assertion to %s fails for %s", typeString(T), why)}
	}
	if x.op == "nil" {
		return failRes(st, "nil")
	}
	if x.op == "iface" {
		match := false
		if types.IsInterface(T) {
			match = types.Implements(x.typ, T.Underlying().(*types.Interface))
			if match {
				return okRes(st, x), nil
			}
		} else {
			match = types.Identical(x.typ, T)
			if match {
				return okRes(st, x.args[0]), nil
			}
		}
		return failRes(st, typeString(x.typ))
	}
	// opaque interface value
	name := mkFn("typename", types.Typ[types.String], x)
	atom := mkFn("istype", types.Typ[types.Bool], x, mkFn("type", T))
	var val *Term
	if types.IsInterface(T) {
		val = x
		if xt := x.typ; xt != nil && types.IsInterface(xt) && types.Implements(xt, T.Underlying().(*types.Interface)) {
			// same method set: only nil fails
			atom = mkNot(mkEq(x, tNil))
		}
	} else {
		val = mk("unbox", "", T, nil, nil, nil, x)
		switch st.facts.eval(mkEq(name, mkStr(typeString(T)))) {
		case 1:
			return okRes(st, val), nil
		}
	}
	if known, ok := st.facts.sconst[name]; ok && !types.IsInterface(T) && known != typeString(T) {
		return failRes(st, known)
	}
	switch st.facts.eval(atom) {
	case 1:
		return okRes(st, val), nil
	case -1:
		return failRes(st, "a value of another type")
	}
	s2 := st.clone()
	var rs []*State
	var ex []exit
	if e.assume(st, atom, true) {
		if !types.IsInterface(T) {
			st.facts.assume(mkEq(name, mkStr(typeString(T))), true)
		}
		rs = append(rs, okRes(st, val)...)
	}
	if e.assume(s2, atom, false) {
		r, x2 := failRes(s2, "a value whose type is not established")
		rs = append(rs, r...)
		ex = append(ex, x2...)
	}
	return rs, ex
}

// ---- calls ----

func (e *Eng) callInstr(st *State, in *ssa.Call) ([]*State, []exit) {
	site := e.site(st, in)
	var outs []outcome
	cc := in.Common()
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(st, a))
	}
	if cc.IsInvoke() {
		recv := e.val(st, cc.Value)
		if recv.op == "nil" {
			return nil, []exit{e.panicExit(st, in, "method %s called on nil interface", cc.Method.Name())}
		}
		var ex []exit
		st, ex = e.need(st, mkNot(mkEq(recv, tNil)), in, "method "+cc.Method.Name()+" called on nil interface")
		if st == nil {
			return nil, ex
		}
		outs = e.invoke(st, site, recv, cc, args, in)
		ss, ex2 := e.bindOutcomes(in, outs)
		return ss, append(ex, ex2...)
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(st, in, f, cc, args)
	case *ssa.Function:
		outs = e.callFn(st, site, f, args, nil, in)
	default:
		callee := e.val(st, cc.Value)
		outs = e.callTerm(st, site, callee, cc.Signature(), args, in)
	}
	return e.bindOutcomes(in, outs)
}

func (e *Eng) bindOutcomes(in *ssa.Call, outs []outcome) ([]*State, []exit) {
	var ss []*State
	var ex []exit
	for _, o := range outs {
		if o.kind != "ret" {
			ex = append(ex, exit{kind: o.kind, o: o, st: o.st})
			continue
		}
		n := in.Common().Signature().Results().Len()
		switch {
		case n == 0:
		case n == 1:
			o.st.set(in, o.vals[0])
		default:
			o.st.set(in, mkTuple(o.vals...))
		}
		ss = append(ss, o.st)
	}
	return ss, ex
}

// callTerm calls a function value.
func (e *Eng) callTerm(st *State, site string, callee *Term, sig *types.Signature, args []*Term, in ssa.Instruction) []outcome {
	pos := e.curPos
	if in != nil && in.Pos().IsValid() {
		pos = in.Pos()
	}
	switch callee.op {
	case "clo":
		return e.callFn(st, site, callee.fn, args, callee.args, in)
	case "nil":
		return []outcome{{kind: "panic", msg: "call of a nil function", pos: pos, fn: e.cur, st: st}}
	}
	if e.handles != nil {
		if outs, ok := e.handles(st, site, callee, sig, args, pos); ok {
			return outs
		}
	}
	return []outcome{{kind: "undecided", msg: "call of unknown function value " + callee.String(), pos: pos, fn: e.cur, st: st}}
}

func (e *Eng) callFn(st *State, site string, fn *ssa.Function, args, bind []*Term, in ssa.Instruction) []outcome {
	pos := e.curPos
	if in != nil && in.Pos().IsValid() {
		pos = in.Pos()
	}
	if e.intercept != nil {
		if outs, ok := e.intercept(st, site, fn, args, pos); ok {
			return outs
		}
	}
	if outs, ok := e.model(st, site, fn, args, pos); ok {
		return outs
	}
	if e.inl(fn) || fn.Parent() != nil && len(fn.Blocks) > 0 {
		nested := len(st.frames) > 0
		outs := e.call(st, site, fn, args, bind)
		if n := fn.Signature.Results().Len(); nested && n > 0 && isErrs(fn.Signature.Results().At(n-1).Type()) && !errsIn(fn) {
			for _, o := range outs {
				if o.kind == "ret" && len(o.vals) == n && errStatus(o.st, o.vals[n-1]) == "some" {
					if ghostHas(o.st, "refused") == "" {
						ghostAdd(o.st, "refused", "a nested "+fn.Name())
					}
				}
			}
		}
		return outs
	}
	return []outcome{{kind: "undecided", msg: "call of unmodelled function " + fn.String(), pos: pos, fn: e.cur, st: st}}
}

// errsIn: a list of errors goes in and one comes out, and nothing else: the
// list may be what the function works on rather than what it reports.
func errsIn(fn *ssa.Function) bool {
	if fn.Signature.Results().Len() != 1 {
		return false
	}
	for _, p := range fn.Params {
		t := p.Type()
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		if isErrs(t) {
			return true
		}
	}
	return false
}

func (e *Eng) builtin(st *State, in *ssa.Call, f *ssa.Builtin, cc *ssa.CallCommon, args []*Term) ([]*State, []exit) {
	switch f.Name() {
	case "len":
		x := args[0]
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			if x.op == "nil" {
				st.set(in, mkInt(0))
			} else {
				st.set(in, mapLen(st.load(x, nil)))
			}
			return one(st), nil
		}
		st.set(in, mkLen(x))
		return one(st), nil
	case "cap":
		n := st.symAt(e.site(st, in), types.Typ[types.Int])
		st.facts.addBound(tSub(n, mkLen(args[0])), new(big.Int), nil)
		st.set(in, n)
		return one(st), nil
	case "append":
		el := in.Type().Underlying().(*types.Slice).Elem()
		st.set(in, e.appendSlice(st, e.site(st, in), el, args[0], e.argSeq(st, args[1], cc.Args[1].Type())))
		return one(st), nil
	case "copy":
		dst, src := args[0], e.argSeq(st, args[1], cc.Args[1].Type())
		ld, ls := mkLen(dst), mkLen(src)
		var n *Term
		switch {
		case st.facts.eval(tLeq(ls, ld)) == 1:
			n = ls
		case st.facts.eval(tLeq(ld, ls)) == 1:
			n = ld
		default:
			n = st.symAt(e.site(st, in), types.Typ[types.Int])
			st.facts.addBound(tSub(ld, n), new(big.Int), nil)
			st.facts.addBound(tSub(ls, n), new(big.Int), nil)
			st.facts.addBound(n, new(big.Int), nil)
		}
		if dst.op == "slice" {
			base := dst.args[0]
			c := st.content(base)
			if base.op == "addr" {
				c = st.load(base, nil)
			}
			off := dst.args[1]
			c = mkScat(st.sslice(c, mkInt(0), off), st.sslice(src, mkInt(0), n), st.sslice(c, tAdd(off, n), mkLen(c)))
			if base.op == "addr" {
				st.store(base, c)
			} else {
				st.heap[base] = c
			}
		} else if dst.op != "nil" {
			return nil, undecided(st, in.Pos(), in.Parent(), "copy into an unknown slice")
		}
		st.set(in, n)
		return one(st), nil
	case "delete":
		m, k := args[0], args[1]
		if m.op != "nil" {
			st.store(m, mk("mdel", "", nil, nil, nil, nil, st.load(m, nil), k))
			if e.onStore != nil {
				e.onStore(st, m, nil, in.Pos(), in.Parent())
			}
		}
		return one(st), nil
	case "clear":
		m := args[0]
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok && m.op != "nil" {
			st.store(m, mk("mempty", "", cc.Args[0].Type(), nil, nil, nil))
			return one(st), nil
		}
	case "min", "max":
		if isIntType(in.Type()) && len(args) == 2 {
			c := tLess(args[0], args[1])
			s2 := st.clone()
			var rs []*State
			for i, s := range []*State{st, s2} {
				if e.assume(s, c, i == 0) {
					k := i
					if f.Name() == "max" {
						k = 1 - i
					}
					s.set(in, args[k])
					rs = append(rs, s)
				}
			}
			return rs, nil
		}
	case "print", "println":
		return one(st), nil
	case "panic":
		return nil, []exit{e.panicExit(st, in, "explicit panic")}
	case "ssa:wrapnilchk":
		st2, ex := e.needNonNil(st, args[0], in, "receiver")
		if st2 != nil {
			st2.set(in, args[0])
		}
		return one(st2), ex
	}
	return nil, undecided(st, in.Pos(), in.Parent(), "unsupported builtin %s", f.Name())
}

// argSeq is the element sequence of a slice (or string) argument.
func (e *Eng) argSeq(st *State, a *Term, t types.Type) *Term {
	if isStringType(t) {
		return mkFn("bytes", types.NewSlice(types.Typ[types.Uint8]), a)
	}
	return st.seqOf(a)
}

// appendSlice: the result is given a backing of its own; elements of the operand's backing past its
// length are treated as overwritten.
func (e *Eng) appendSlice(st *State, site string, el types.Type, a, more *Term) *Term {
	base := st.seqOf(a)
	if a.op == "nil" || base.op == "seq" && len(base.args) == 0 {
		if more.op == "seq" && len(more.args) == 0 {
			return a
		}
	}
	if a.op == "slice" {
		b := a.args[0]
		c := st.content(b)
		if b.op != "addr" {
			end := tAdd(a.args[1], a.args[2])
			if end != mkLen(c) {
				// the operand is a proper prefix: append writes into the shared backing
				st.heap[b] = mkScat(st.sslice(c, mkInt(0), end), mkFn("clobbered", types.NewSlice(el), c, more))
			}
		}
	}
	maybeNil := false
	seq := mkScat(base, more)
	if a.op == "nil" || a.op == "slice" && a.s == "?" || a.op != "slice" {
		// nil stays nil when nothing is appended
		if lo, _ := st.facts.rng(mkLen(seq)); lo == nil || lo.Sign() <= 0 {
			maybeNil = true
		}
	}
	return st.newSlice(site, el, seq, maybeNil)
}

func mapLen(m *Term) *Term {
	if m.op == "mempty" || m.op == "nil" {
		return mkInt(0)
	}
	return mk("len", "", nil, nil, nil, nil, m)
}

// ---- merging of call outcomes ----

func shapeOf(st *State, t *Term) string {
	switch {
	case t.op == "true" || t.op == "false":
		return t.op
	case t.op == "int" || t.op == "str":
		return t.String()
	case st.facts.isNil(t):
		return "nil"
	case st.facts.nonNil(t):
		return "nonnil"
	}
	return "?"
}

func (e *Eng) mergeOutcomes(outs []outcome, site string) []outcome {
	groups := map[string][]outcome{}
	var keys []string
	var res []outcome
	for _, o := range outs {
		if o.kind != "ret" {
			res = append(res, o)
			continue
		}
		k := ""
		for _, v := range o.vals {
			k += shapeOf(o.st, v) + ","
		}
		k += ghostKey(o.st)
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], o)
	}
	for _, k := range keys {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		res = append(res, e.mergeRet(g, site))
	}
	return res
}

func ghostKey(st *State) string {
	var ks []string
	for k, v := range st.ghosts {
		if v.op == "str" || v.op == "true" || v.op == "false" {
			ks = append(ks, k+"="+v.String())
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// mergeRet joins several normal outcomes: what they agree on is kept, the rest becomes unknown.
func (e *Eng) mergeRet(g []outcome, site string) outcome {
	r := g[0].st
	n := 0
	join := func(get func(i int) *Term, typ types.Type) *Term {
		v := get(0)
		same := true
		for i := 1; i < len(g); i++ {
			if get(i) != v {
				same = false
			}
		}
		if same {
			return v
		}
		n++
		t := typ
		if t == nil {
			t = termType(v)
		}
		s := r.symAt(fmt.Sprintf("M%s.%d", site, n), t)
		return s
	}
	out := outcome{kind: "ret", pos: g[0].pos, fn: g[0].fn, st: r}
	// values
	nonnil := map[*Term]bool{}
	for k := range g[0].vals {
		var t types.Type
		if g[0].fn != nil && k < g[0].fn.Signature.Results().Len() {
			t = g[0].fn.Signature.Results().At(k).Type()
		}
		v := join(func(i int) *Term { return g[i].vals[k] }, t)
		all := true
		for i := range g {
			if !g[i].st.facts.nonNil(g[i].vals[k]) {
				all = false
			}
		}
		if all {
			nonnil[v] = true
		}
		out.vals = append(out.vals, v)
	}
	// heap
	keys := map[*Term]bool{}
	for i := range g {
		for k := range g[i].st.heap {
			keys[k] = true
		}
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	heap := map[*Term]*Term{}
	for _, k := range ks {
		in := true
		for i := range g {
			if _, ok := g[i].st.heap[k]; !ok {
				in = false
			}
		}
		if !in {
			// made on some paths only: keep what is known, it can be reached only from those paths
			for i := range g {
				if c, ok := g[i].st.heap[k]; ok {
					if k.op == "obj" {
						heap[k] = c
					}
					break
				}
			}
			continue
		}
		kk := k
		heap[k] = join(func(i int) *Term { return g[i].st.heap[kk] }, heapType(k))
	}
	r.heap = heap
	// ghosts
	for k := range r.ghosts {
		kk := k
		r.ghosts[k] = join(func(i int) *Term {
			if v := g[i].st.ghosts[kk]; v != nil {
				return v
			}
			return tNil
		}, nil)
	}
	// facts
	f := newFacts()
	for t, v := range g[0].st.facts.truth {
		all := true
		for i := 1; i < len(g); i++ {
			x := g[i].st.facts.eval(t)
			if v && x != 1 || !v && x != -1 {
				all = false
				break
			}
		}
		if all {
			f.truth[t] = v
		}
	}
	for b, iv := range g[0].st.facts.bounds {
		lo, hi := iv.lo, iv.hi
		for i := 1; i < len(g); i++ {
			a, c := g[i].st.facts.rng(b)
			if lo != nil && (a == nil || a.Cmp(lo) < 0) {
				lo = a
			}
			if hi != nil && (c == nil || c.Cmp(hi) > 0) {
				hi = c
			}
		}
		if lo != nil || hi != nil {
			f.bounds[b] = &interval{lo, hi}
		}
	}
	for t, c := range g[0].st.facts.sconst {
		all := true
		for i := 1; i < len(g); i++ {
			if g[i].st.facts.sconst[t] != c {
				all = false
			}
		}
		if all {
			f.sconst[t] = c
		}
	}
	for u := range g[0].st.facts.univ {
		all := true
		for i := 1; i < len(g); i++ {
			if !g[i].st.facts.univ[u] {
				all = false
			}
		}
		if all {
			f.univ[u] = true
		}
	}
	for v := range nonnil {
		f.assume(mkEq(v, tNil), false)
	}
	r.facts = f
	return out
}

func heapType(k *Term) types.Type {
	if k.op == "obj" {
		return k.typ
	}
	return derefType(k)
}

func termType(t *Term) types.Type {
	if t.typ != nil && t.op != "iface" {
		return t.typ
	}
	switch {
	case t.op == "iface":
		return types.NewInterfaceType(nil, nil)
	case t.isInt():
		return types.Typ[types.Int]
	case t.isStr():
		return types.Typ[types.String]
	case t.isBool():
		return types.Typ[types.Bool]
	}
	return nil
}
