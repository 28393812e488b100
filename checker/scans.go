package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-program scans over the functions an exported operation can reach.

func pkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// ours: functions whose bodies are scanned.
func (w *World) ours(fn *ssa.Function) bool {
	p := pkgPath(fn)
	return len(fn.Blocks) > 0 && (w.repoPk[p] || p == commonPath)
}

func isPkgInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// reachable: everything an exported function or method of the library can run, through calls and function values.
func (w *World) reachable() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var list []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		if !w.ours(fn) {
			return
		}
		list = append(list, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	var names []string
	for n := range w.json.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := w.json.Members[n].(type) {
		case *ssa.Function:
			if token.IsExported(n) || isPkgInit(m) {
				add(m)
			}
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := w.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(w.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(list, func(i, j int) bool {
		if list[i].Pos() != list[j].Pos() {
			return list[i].Pos() < list[j].Pos()
		}
		return list[i].String() < list[j].String()
	})
	return list
}

// label names a function without the numbers of closures, which shift with every edit.
func label(fn *ssa.Function) string {
	n := fn
	for n.Parent() != nil {
		n = n.Parent()
	}
	if n != fn {
		return "a closure of " + n.Name()
	}
	return n.Name()
}

type callInfo struct {
	path, recv, name string
}

func calleeOf(c *ssa.CallCommon) (callInfo, *ssa.Function) {
	if c.IsInvoke() {
		ci := callInfo{name: c.Method.Name()}
		if c.Method.Pkg() != nil {
			ci.path = c.Method.Pkg().Path()
		}
		ci.recv = typeString(c.Value.Type())
		return ci, nil
	}
	fn := c.StaticCallee()
	if fn == nil {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return callInfo{path: "builtin", name: b.Name()}, nil
		}
		return callInfo{}, nil
	}
	ci := callInfo{path: pkgPath(fn), name: fn.Name()}
	if r := fn.Signature.Recv(); r != nil {
		ci.recv = typeString(r.Type())
	}
	return ci, fn
}

// outside says why a call leaves the library, or "".
func outside(c callInfo) string {
	switch c.path {
	case "builtin":
		if c.name == "print" || c.name == "println" {
			return "writes to the console"
		}
	case "os":
		if strings.HasPrefix(c.name, "Is") || c.recv != "" && (c.name == "Error" || c.name == "Unwrap" || c.name == "String") {
			return ""
		}
		return "uses the operating system"
	case "os/exec":
		if c.name == "Error" || c.name == "Unwrap" || c.name == "String" || c.name == "ExitCode" || c.name == "Success" {
			return ""
		}
		return "starts processes"
	case "syscall", "net", "net/http", "os/signal", "os/user", "log", "log/slog", "io/ioutil", "plugin", "expvar", "net/rpc", "net/smtp":
		return "uses " + c.path
	case "fmt":
		if strings.HasPrefix(c.name, "Print") || strings.HasPrefix(c.name, "Scan") {
			return "uses the console"
		}
	case "time":
		switch c.name {
		case "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick":
			return "waits for the clock"
		case "LoadLocation":
			return "reads the time zone files"
		}
	case "runtime":
		switch c.name {
		case "KeepAlive", "Callers", "Caller", "FuncForPC", "CallersFrames":
			return ""
		}
		return "acts on the Go runtime"
	case "runtime/debug", "runtime/pprof", "runtime/trace":
		return "acts on the Go runtime"
	}
	return ""
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Interface:
		return !isErrorT(t)
	}
	return true
}

// shared finds uses of package-level state.
func (w *World) shared(r *Report, fns []*ssa.Function) {
	const rule = "no package-level state is changed or handed out"
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
		r.ok(rule, label(f))
	}
	ref := map[ssa.Value]string{}   // refers to package-level memory
	cell := map[*ssa.Alloc]string{} // local variable holding such a reference
	returns := map[*ssa.Function][]string{}
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	var work []ssa.Value
	mark := func(v ssa.Value, what string) {
		if v == nil {
			return
		}
		if _, ok := ref[v]; ok {
			return
		}
		if _, isFn := v.(*ssa.Function); isFn {
			return
		}
		ref[v] = what
		work = append(work, v)
	}
	markIf := func(v ssa.Value, what string) {
		if hasRefs(v.Type()) {
			mark(v, what)
		}
	}
	globals := map[*ssa.Global]bool{}
	uses := map[*ssa.Global][]ssa.Instruction{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						calls[s] = append(calls[s], c)
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok && isPkgInit(f) {
					for k, bv := range mc.Bindings {
						if al, ok := bv.(*ssa.Alloc); ok {
							mark(mc.Fn.(*ssa.Function).FreeVars[k], "the variable "+al.Comment+" kept by a package-level function")
						}
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if isPkgInit(f) {
							continue
						}
						uses[g] = append(uses[g], i)
						globals[g] = true
					}
				}
			}
		}
	}
	bad := func(i ssa.Instruction, what, how string) {
		fn := i.Parent()
		r.add(rule, label(fn), "violation", fmt.Sprintf("%s %s %s", label(fn), how, what), w.where(i.Pos(), fn))
	}
	unsure := func(i ssa.Instruction, what, how string) {
		fn := i.Parent()
		r.add(rule, label(fn), "undecided", fmt.Sprintf("%s %s %s at %s", label(fn), how, what, w.where(i.Pos(), fn)), "")
	}
	handle := func(i ssa.Instruction, v ssa.Value, what string) {
		switch x := i.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				markIf(x, what)
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.ChangeType, *ssa.Slice:
			mark(i.(ssa.Value), what)
		case *ssa.Field, *ssa.Index, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Phi, *ssa.Range, *ssa.Next:
			if _, ok := i.(ssa.Value).Type().(*types.Tuple); ok {
				mark(i.(ssa.Value), what)
			} else {
				markIf(i.(ssa.Value), what)
			}
		case *ssa.Lookup:
			if x.X == v {
				if x.CommaOk {
					mark(x, what)
				} else {
					markIf(x, what)
				}
			}
		case *ssa.Store:
			if x.Addr == v {
				bad(i, what, "writes")
				return
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				if _, done := cell[al]; !done {
					cell[al] = what
					for _, ri := range *al.Referrers() {
						if ld, ok := ri.(*ssa.UnOp); ok && ld.Op == token.MUL {
							markIf(ld, what)
						}
						if mc, ok := ri.(*ssa.MakeClosure); ok {
							for k, bv := range mc.Bindings {
								if bv == al {
									for _, fr := range *mc.Fn.(*ssa.Function).FreeVars[k].Referrers() {
										if ld, ok := fr.(*ssa.UnOp); ok && ld.Op == token.MUL {
											markIf(ld, what)
										}
									}
								}
							}
						}
					}
				}
				return
			}
			if _, isFn := v.Type().Underlying().(*types.Signature); isFn {
				return
			}
			if !isErrorT(v.Type()) {
				unsure(i, what, "stores a reference to")
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				bad(i, what, "writes")
			}
		case *ssa.MakeClosure:
			for k, bv := range x.Bindings {
				if bv == v {
					mark(x.Fn.(*ssa.Function).FreeVars[k], what)
				}
			}
		case *ssa.Return:
			fn := i.Parent()
			returns[fn] = append(returns[fn], what)
			for _, c := range calls[fn] {
				if cv, ok := c.(ssa.Value); ok {
					mark(cv, what)
				}
			}
			t := v.Type().Underlying()
			_, isSig := t.(*types.Signature)
			if !isSig && (token.IsExported(fn.Name()) || fn.Parent() != nil) && !isErrs(v.Type()) {
				bad(i, what, "hands out")
			}
		case *ssa.Send, *ssa.Go, *ssa.Select:
			bad(i, what, "passes on")
		case ssa.CallInstruction:
			c := x.Common()
			ci, fn := calleeOf(c)
			if c.Value == v && !c.IsInvoke() {
				// a function value held at package level: an operation of a shared document?
				if n, ok := fieldOfLoad(c.Value); ok {
					if !isReadName(n) {
						bad(i, what, "calls "+n+" on")
					}
				}
				return
			}
			if ci.path == "builtin" {
				switch ci.name {
				case "delete", "clear":
					bad(i, what, "empties")
				case "copy":
					if c.Args[0] == v {
						bad(i, what, "writes")
					}
				case "append":
					if c.Args[0] == v {
						unsure(i, what, "appends to")
						markIf(x.Value(), what)
					}
				}
				return
			}
			if fn != nil && in[fn] {
				for k, a := range c.Args {
					if a == v && k < len(fn.Params) {
						mark(fn.Params[k], what)
					}
				}
				return
			}
			switch {
			case ci.path == "sync" && (strings.Contains(ci.recv, "Mutex") || strings.Contains(ci.recv, "Once")):
			case ci.path == "sync" || ci.path == "sync/atomic":
				bad(i, what, "uses "+ci.name+" on")
			case ci.path == "strings" && strings.Contains(ci.recv, "Builder"), ci.path == "bytes" && strings.Contains(ci.recv, "Buffer"), ci.path == "bufio":
				if strings.HasPrefix(ci.name, "Write") || ci.name == "Reset" || ci.name == "Truncate" || strings.HasPrefix(ci.name, "Read") || ci.name == "Grow" {
					bad(i, what, "calls "+ci.name+" on")
				}
			case ci.path == "sort" && !strings.HasPrefix(ci.name, "Search") && !strings.HasSuffix(ci.name, "AreSorted"), ci.path == "slices" && (strings.HasPrefix(ci.name, "Sort") || ci.name == "Reverse"):
				bad(i, what, "sorts")
			case ci.path == "math/rand" || ci.path == "math/rand/v2":
				bad(i, what, "draws from")
			case ci.path == "regexp", ci.path == "strings", ci.path == "fmt", ci.path == "errors", ci.path == "slices", ci.path == "maps", ci.path == "sort", ci.path == "strconv", ci.path == "unicode", ci.path == "unicode/utf8", ci.path == "reflect", ci.path == "time":
			default:
				unsure(i, what, "passes "+ci.name+" a reference to")
			}
		}
	}
	var gs []*ssa.Global
	for g := range globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		what := "the package variable " + g.Name()
		if g.Pkg != nil && !w.repoPk[g.Pkg.Pkg.Path()] {
			what = "the package variable " + g.Pkg.Pkg.Name() + "." + g.Name()
		}
		for _, i := range uses[g] {
			if !w.repoPk[g.Pkg.Pkg.Path()] && g.Pkg.Pkg.Path() != commonPath {
				// a variable of another library: reading it is that library's business
				if s, ok := i.(*ssa.Store); ok && s.Addr == g {
					bad(i, what, "writes")
				}
				if (g.Pkg.Pkg.Path() == "os") && (g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin" || g.Name() == "Args") {
					bad(i, what, "uses")
				}
				continue
			}
			handle(i, g, what)
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, i := range *rs {
			handle(i, v, ref[v])
		}
	}
	r.count("package-level variables used", len(gs))
}

// fieldOfLoad: the published operation a function value was taken from.
func fieldOfLoad(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return st.Field(fa.Field).Name(), true
		}
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name(), true
	}
	return "", false
}

// ---- C15 ----

// orderFree: the loop over a map leaves no trace of the order in which it went.
func (w *World) orderFree(rg *ssa.Range) string {
	var next *ssa.Next
	for _, i := range *rg.Referrers() {
		if n, ok := i.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	l := infoOf(next.Parent()).loops[next.Block()]
	if l == nil {
		return "" // not a loop: at most one round; which entry it sees depends on the order
	}
	key := extractOf(next, 1)
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && l.body[i.Block()]
	}
	// values of the loop may be used outside only after sorting
	sorted := func(v ssa.Value) bool { return w.sortedAfter(v, l) }
	var phis []*ssa.Phi
	for _, i := range l.head.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	okPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		fine := false
		for k, e := range p.Edges {
			if !l.body[l.head.Preds[k]] {
				continue
			}
			switch x := e.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == p {
					fine = sorted(p)
					if !fine {
						return "a list built while walking a map is used without being sorted"
					}
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && (x.X == p || x.Y == p) && isIntType(p.Type()) {
					fine = true
				}
			case *ssa.Phi:
				fine = true // judged below by its uses
				for _, e2 := range x.Edges {
					if c, ok := e2.(*ssa.Call); ok {
						if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && !sorted(p) {
							return "a list built while walking a map is used without being sorted"
						}
					}
				}
			case *ssa.Const:
				fine = true
			default:
				if e == p {
					fine = true
				}
			}
		}
		if !fine {
			return "a value carried through the walk over a map depends on its order"
		}
		okPhi[p] = true
	}
	for b := range l.body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if al, ok := rootAlloc(x.Addr); ok && inLoop(al) {
					continue
				}
				// a captured or addressed list: as for a phi, appended and sorted later
				if c, ok := x.Val.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if w.sortedCell(x.Addr, l) {
							continue
						}
						return "a list built while walking a map is used without being sorted"
					}
				}
				if fa, ok := x.Addr.(*ssa.IndexAddr); ok {
					if w.filledThenSorted(fa, l) {
						continue
					}
					return "positions are filled in the order of a walk over a map"
				}
				// a counter or a constant flag in memory is the same in any order
				if _, ok := x.Val.(*ssa.Const); ok {
					continue
				}
				if bo, ok := x.Val.(*ssa.BinOp); ok && bo.Op == token.ADD && isIntType(bo.Type()) {
					if ld, ok := bo.X.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == x.Addr {
						if _, ok := bo.Y.(*ssa.Const); ok {
							continue
						}
					}
				}
				return "a variable is set while walking a map"
			case *ssa.MapUpdate:
				if key != nil && dependsOn(x.Key, key) {
					continue
				}
				return "a map is filled under keys other than the walked ones"
			case *ssa.Call:
				ci, fn := calleeOf(&x.Call)
				if ci.path == "builtin" && ci.name != "print" && ci.name != "println" {
					continue
				}
				if pureCall(ci) {
					continue
				}
				if fn != nil && w.ours(fn) && !effects(fn, map[*ssa.Function]bool{}) {
					continue
				}
				if n, ok := fieldOfLoad(x.Call.Value); ok && isReadName(n) {
					continue
				}
				what := ci.name
				if n, ok := fieldOfLoad(x.Call.Value); ok {
					what = n
				}
				if what == "" {
					what = "a function"
				}
				return what + " is called in the order of a walk over a map"
			case *ssa.Return:
				for _, v := range x.Results {
					if inLoop(v) {
						return "the walk over a map decides what is returned"
					}
				}
			}
		}
	}
	return ""
}

func extractOf(n *ssa.Next, k int) ssa.Value {
	for _, i := range *n.Referrers() {
		if e, ok := i.(*ssa.Extract); ok && e.Index == k {
			return e
		}
	}
	return nil
}

func dependsOn(v, key ssa.Value) bool {
	if v == key {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, isPhi := v.(*ssa.Phi); isPhi {
		return false
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && dependsOn(*op, key) {
			return true
		}
	}
	return false
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x, true
	case *ssa.FieldAddr:
		return rootAlloc(x.X)
	case *ssa.IndexAddr:
		return rootAlloc(x.X)
	}
	return nil, false
}

func pureCall(ci callInfo) bool {
	switch ci.path {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "errors", "reflect":
		return !strings.HasPrefix(ci.name, "Write")
	case "fmt":
		return strings.HasPrefix(ci.name, "Sprint") || ci.name == "Errorf"
	}
	return false
}

// effects: the function may write to memory it did not make.
func effects(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if _, ok := rootAlloc(x.Addr); !ok {
					return true
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return true
			case *ssa.Call:
				ci, f := calleeOf(&x.Call)
				if ci.path == "builtin" || pureCall(ci) {
					continue
				}
				if f == nil || len(f.Blocks) == 0 || effects(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

func isSort(i ssa.Instruction, v func(ssa.Value) bool) bool {
	c, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	ci, _ := calleeOf(&c.Call)
	if !(ci.path == "sort" && (ci.name == "Strings" || ci.name == "Slice" || ci.name == "SliceStable" || ci.name == "Sort" || ci.name == "Stable" || ci.name == "Ints" || ci.name == "Float64s") ||
		ci.path == "slices" && strings.HasPrefix(ci.name, "Sort")) {
		return false
	}
	if len(c.Call.Args) > 1 && !totalOrder(c.Call.Args[1]) {
		return false
	}
	return len(c.Call.Args) > 0 && v(c.Call.Args[0])
}

// totalOrder: the comparison looks at the compared elements themselves
// somewhere, and so tells any two different ones apart. A comparison of
// lengths, or of the texts in lower case, leaves ties in the order of the walk.
func totalOrder(f ssa.Value) bool {
	switch x := f.(type) {
	case *ssa.MakeClosure:
		return totalOrder(x.Fn)
	case *ssa.ChangeType:
		return totalOrder(x.X)
	case *ssa.Function:
		switch pkgPath(x) + "." + x.Name() {
		case "strings.Compare", "cmp.Compare", "cmp.Less":
			return true
		}
		if o := x.Origin(); o != nil && pkgPath(o) == "cmp" {
			return true
		}
		// an element: a parameter (SortFunc), or what stands at a parameter (Slice)
		var elem func(v ssa.Value) bool
		elem = func(v ssa.Value) bool {
			switch y := v.(type) {
			case *ssa.Parameter:
				return !isIntType(y.Type())
			case *ssa.UnOp:
				if y.Op != token.MUL {
					return false
				}
				if ia, ok := y.X.(*ssa.IndexAddr); ok {
					_, p := ia.Index.(*ssa.Parameter)
					return p
				}
			}
			return false
		}
		for _, b := range x.Blocks {
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case *ssa.BinOp:
					switch y.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if elem(y.X) && elem(y.Y) && y.X != y.Y {
							return true
						}
					}
				case *ssa.Call:
					if g := y.Call.StaticCallee(); g != nil && len(y.Call.Args) == 2 && elem(y.Call.Args[0]) && elem(y.Call.Args[1]) && totalOrder(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

// filledThenSorted: the list filled by position is sorted before any other use.
func (w *World) filledThenSorted(fa *ssa.IndexAddr, l *loopInfo) bool {
	if i, ok := fa.X.(ssa.Instruction); ok && !l.body[i.Block()] {
		return w.sortedAfter(fa.X, l)
	}
	if ld, ok := fa.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
		return w.sortedCell(ld.X, l)
	}
	return false
}

// sortedAfter: every use of v outside the loop comes after a sort of it.
func (w *World) sortedAfter(v ssa.Value, l *loopInfo) bool {
	var unwrap func(x ssa.Value) bool
	unwrap = func(x ssa.Value) bool {
		if x == v {
			return true
		}
		switch y := x.(type) {
		case *ssa.MakeInterface:
			return unwrap(y.X)
		case *ssa.ChangeType:
			return unwrap(y.X)
		case *ssa.UnOp:
			// sort.Sort(&wrapper) and the like are not followed
			return false
		}
		return false
	}
	var sorts, others []ssa.Instruction
	var visit func(x ssa.Value)
	visit = func(x ssa.Value) {
		for _, i := range *x.Referrers() {
			if l.body[i.Block()] {
				continue
			}
			if isSort(i, unwrap) {
				sorts = append(sorts, i)
				continue
			}
			switch y := i.(type) {
			case *ssa.MakeInterface:
				visit(y)
			case *ssa.ChangeType:
				visit(y)
			case *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				others = append(others, i)
			default:
				others = append(others, i)
			}
		}
	}
	visit(v)
	for _, o := range others {
		ok := false
		for _, s := range sorts {
			if s.Block() == o.Block() && index(s) < index(o) || s.Block() != o.Block() && s.Block().Dominates(o.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func index(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// onlyCompares: the function is made for a sort and used nowhere else.
func onlyCompares(mc *ssa.MakeClosure) bool {
	for _, u := range *mc.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := u.(*ssa.Call)
		if !ok || len(c.Call.Args) != 2 || c.Call.Args[1] != mc || !isSort(u, func(ssa.Value) bool { return true }) {
			return false
		}
	}
	return true
}

// sortedCell: as sortedAfter, for a list kept in memory.
func (w *World) sortedCell(addr ssa.Value, l *loopInfo) bool {
	rs := addr.Referrers()
	if rs == nil {
		return false
	}
	var sorts, loads []ssa.Instruction
	for _, i := range *rs {
		if l.body[i.Block()] {
			continue
		}
		if ld, ok := i.(*ssa.UnOp); ok && ld.Op == token.MUL {
			isS := false
			var look func(v ssa.Value)
			look = func(v ssa.Value) {
				for _, u := range *v.Referrers() {
					if mi, ok := u.(*ssa.MakeInterface); ok {
						look(mi)
					}
					if isSort(u, func(a ssa.Value) bool { return a == v }) {
						isS = true
						sorts = append(sorts, u)
					}
				}
			}
			look(ld)
			if !isS {
				loads = append(loads, i)
			}
			continue
		}
		if _, ok := i.(*ssa.Store); ok {
			continue
		}
		if mc, ok := i.(*ssa.MakeClosure); ok {
			if !onlyCompares(mc) {
				loads = append(loads, i)
			}
		}
	}
	for _, o := range loads {
		ok := false
		for _, s := range sorts {
			if s.Block() == o.Block() && index(s) < index(o) || s.Block() != o.Block() && s.Block().Dominates(o.Block()) {
				ok = true
			}
		}
		// loads that come before the loop see the list as it was
		if o.Block().Dominates(l.head) && !l.body[o.Block()] {
			ok = true
		}
		if !ok {
			return false
		}
	}
	return true
}

func (w *World) determinism(r *Report, fns []*ssa.Function) {
	const rule = "no result depends on hash order, the clock, chance or addresses"
	maps, cl := 0, 0
	for _, f := range fns {
		item := label(f)
		r.ok(rule, item)
		if isPkgInit(f) {
			continue
		}
		bad := func(i ssa.Instruction, how string) {
			r.add(rule, item, "violation", item+": "+how, w.where(i.Pos(), f))
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						maps++
						if why := w.orderFree(x); why != "" {
							bad(i, why)
						}
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						bad(i, "a choice between channels depends on scheduling")
					}
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if bx, ok := x.X.Type().Underlying().(*types.Basic); ok && bx.Kind() == types.UnsafePointer {
							bad(i, "an address is used as a number")
						}
					}
				case ssa.CallInstruction:
					cl++
					c := x.Common()
					ci, _ := calleeOf(c)
					switch {
					case strings.HasPrefix(ci.path, "math/rand"), ci.path == "crypto/rand", ci.path == "hash/maphash":
						bad(i, ci.path+"."+ci.name+" gives a different answer every time")
					case ci.path == "time" && (ci.name == "Now" || ci.name == "Since" || ci.name == "Until"):
						if pkgPath(f) == commonPath && f.Name() == "GetTimeNow" && w.onlyNow(f, fns) {
							continue
						}
						if w.nowGuarded(i) {
							continue
						}
						bad(i, "time."+ci.name+" reads the clock")
					case ci.path == commonPath && w.repoPk[pkgPath(f)] && (strings.Contains(ci.name, "TimeNow") || strings.Contains(ci.name, "Guid") || strings.Contains(ci.name, "Random")):
						if w.nowGuarded(i) {
							continue
						}
						bad(i, "common."+ci.name+" gives a different answer every time")
					case ci.path == "time" && ci.name == "Local" && ci.recv != "":
						bad(i, "a time is converted to the zone of the machine")
					case ci.path == "maps" && (ci.name == "Keys" || ci.name == "Values" || ci.name == "All"):
						v := x.Value()
						for _, u := range *v.Referrers() {
							uc, ok := u.(*ssa.Call)
							if !ok {
								bad(i, "maps."+ci.name+" walks a map in hash order")
								continue
							}
							ui, _ := calleeOf(&uc.Call)
							if !(ui.path == "slices" && strings.HasPrefix(ui.name, "Sorted")) {
								if ui.path == "slices" && ui.name == "Collect" && w.sortedAfter(uc, &loopInfo{body: map[*ssa.BasicBlock]bool{}}) {
									continue
								}
								bad(i, "maps."+ci.name+" walks a map in hash order")
							}
						}
					case ci.path == "reflect" && (ci.name == "MapRange" || ci.name == "MapKeys"):
						bad(i, "reflect's "+ci.name+" walks a map in hash order")
					case ci.path == "fmt":
						for _, a := range c.Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
								bad(i, "an address is printed")
							}
						}
					}
				}
			}
		}
	}
	r.count("walks over maps", maps)
	r.count("call sites", cl)
}

// onlyNow: every call of the clock reader is guarded by the word now.
func (w *World) onlyNow(clock *ssa.Function, fns []*ssa.Function) bool {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == clock && !w.nowGuarded(i) {
					return false
				}
			}
		}
	}
	return true
}

// nowGuarded: the instruction only runs when some text equals "now".
func (w *World) nowGuarded(i ssa.Instruction) bool {
	for b := i.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] != b || len(b.Preds) != 1 {
			continue
		}
		if x, ok := iff.Cond.(*ssa.BinOp); ok && x.Op == token.EQL {
			for _, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"now"` {
					return true
				}
			}
		}
	}
	return false
}

// ---- C05 ----

// constructors: exported functions that return a document, array or value.
func (w *World) constructors() []*ssa.Function {
	var r []*ssa.Function
	var names []string
	for n := range w.json.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := w.json.Members[n].(*ssa.Function)
		if !ok || !token.IsExported(n) || f.Signature.Results().Len() != 1 {
			continue
		}
		if w.structOf(f.Signature.Results().At(0).Type()) != nil {
			r = append(r, f)
		}
	}
	return r
}

func (w *World) structOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return w.handleType(t)
}

func (w *World) implemented(r *Report) {
	const rule = "every published operation is set"
	e := w.engine()
	for _, f := range w.constructors() {
		n := w.structOf(f.Signature.Results().At(0).Type())
		st := newState()
		var args []*Term
		for i := 0; i < f.Signature.Params().Len(); i++ {
			a := mkSym(fmt.Sprintf("arg%d", i), f.Signature.Params().At(i).Type())
			args = append(args, a)
		}
		e.steps = 0
		for _, o := range e.callFn(st, "root", f, args, nil, nil) {
			if o.kind == "undecided" {
				r.add(rule, f.Name(), "undecided", o.msg+" at "+w.where(o.pos, o.fn), "")
				continue
			}
			if o.kind != "ret" {
				continue
			}
			v := o.vals[0]
			if _, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok {
				if o.st.facts.isNil(v) {
					continue
				}
				v = o.st.load(v, n)
			}
			for _, op := range fieldsOf(n) {
				item := f.Name() + ": " + op.name
				c := mkSel(v, op.k, op.sig)
				r.ok(rule, item)
				switch {
				case c.op == "nil" || o.st.facts.isNil(c):
					r.add(rule, item, "violation", fmt.Sprintf("%s returns a %s whose %s is not set", f.Name(), n.Obj().Name(), op.name), w.where(f.Pos(), f))
				case c.op != "clo" && c.op != "func" && !o.st.facts.nonNil(c):
					r.add(rule, item, "undecided", short(c), "")
				}
			}
		}
	}
}

func init() {
	define(&propDef{id: "C05", run: func(w *World, r *Report) { w.implemented(r) }})
	define(&propDef{id: "C14", run: func(w *World, r *Report) {
		fns := w.reachable()
		w.shared(r, fns)
		const rule = "nothing outside the documents is touched"
		n := 0
		for _, f := range fns {
			item := label(f)
			r.ok(rule, item)
			bad := func(i ssa.Instruction, how string) {
				r.add(rule, item, "violation", item+" "+how, w.where(i.Pos(), f))
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.Go:
						bad(i, "starts a goroutine")
					case *ssa.MakeChan, *ssa.Send, *ssa.Select:
						bad(i, "uses channels")
					case ssa.CallInstruction:
						n++
						ci, cf := calleeOf(x.Common())
						if cf != nil && isPkgInit(cf) {
							continue // the initialisation of an imported package
						}
						if why := outside(ci); why != "" {
							bad(i, why+" ("+ci.path+"."+ci.name+")")
						}
					}
				}
			}
		}
		r.count("functions", len(fns))
		r.count("call sites", n)
	}})
	define(&propDef{id: "C15", run: func(w *World, r *Report) {
		fns := w.reachable()
		r.count("functions", len(fns))
		w.determinism(r, fns)
	}})
}
