package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parser job: the entry point Parse is interpreted on an unknown text. Operations of the documents it builds are
// taken by their contracts (decided under the other properties); its loops are followed state by state (autoloop.go).

const vboxOp = "vbox"

type parseRun struct {
	fn   *ssa.Function
	in   *Term
	outs []outcome
	e    *Eng
	a    *autoPass
	spec *parseSpec
	msg  string
}

// parsePart adds a part to a property that looks at a run of the parser. A suspicion that rests on numbers or texts
// whose value was given up is looked at again in a run that keeps small numbers.
func parsePart(id string, f func(w *World, r *Report, p *parseRun)) {
	also(id, func(w *World, r *Report) {
		p := w.parse()
		one := newReport(r.prop, r.tier)
		before := weakHit
		f(w, one, p)
		if weakHit == before {
			r.merge(one)
			return
		}
		two := newReport(r.prop, r.tier)
		f(w, two, w.parseExact())
		for _, o := range one.obs {
			if two.index[o.Rule+"|"+o.Item] == nil || o.Status == "violation" {
				two.add(o.Rule, o.Item, o.Status, o.Msg, o.Pos)
			}
		}
		r.merge(two)
	})
}

type parseFinding struct {
	prop, rule, item, status, msg, pos string
	weak                               bool // withheld because of a value given up
}

func (w *World) parseEngine() (*Eng, *autoPass) {
	e := w.engine()
	w.freshContainers(e)
	e.fresh = true
	e.budget = 4000000
	a := newAuto(w, e)
	e.auto = a
	prev := e.intercept
	e.intercept = func(st *State, site string, fn *ssa.Function, args []*Term, pos token.Pos) ([]outcome, bool) {
		if fn.Pkg == w.json && fn.Parent() == nil && strings.HasPrefix(fn.Name(), "New") && len(args) == 1 && fn.Signature.Results().Len() == 1 && types.IsInterface(fn.Signature.Params().At(0).Type()) {
			rt := fn.Signature.Results().At(0).Type()
			t := rt
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if w.handleType(t) == w.V {
				c := args[0]
				k := "other"
				if c.op == "iface" {
					ct, x := c.typ, c.args[0]
					if p, ok := ct.Underlying().(*types.Pointer); ok {
						ct = p.Elem()
						if w.handleType(ct) != nil {
							x = st.load(x, ct)
						}
					}
					c = x
					switch w.handleType(ct) {
					case w.M:
						k = "M"
					case w.A:
						k = "A"
					}
				}
				h := mkFn(vboxOp, w.V, c)
				assumeKind(w, st, h, k)
				if rt != t {
					return []outcome{ret(st, st.alloc(site+"!value", w.V, h))}, true
				}
				return []outcome{ret(st, h)}, true
			}
		}
		return prev(st, site, fn, args, pos)
	}
	ph := e.handles
	e.handles = func(st *State, site string, callee *Term, sig *types.Signature, args []*Term, pos token.Pos) ([]outcome, bool) {
		if callee.op != "sel" || callee.args[0].typ == nil {
			return ph(st, site, callee, sig, args, pos)
		}
		H := callee.args[0]
		n := w.handleType(H.typ)
		if n == nil {
			return ph(st, site, callee, sig, args, pos)
		}
		name := n.Underlying().(*types.Struct).Field(fieldIdx(callee)).Name()
		if len(args) > 0 && args[0].op != "str" && sig.Params().Len() > 0 && isStringType(sig.Params().At(0).Type()) {
			if k, ok := knownText(st, args[0]); ok {
				args = append([]*Term{mkStr(k)}, args[1:]...)
			} else if H.op == "fn" && H.s == freshOp && isReadName(name) && w.hasLog(st, H) {
				ghostAdd(st, "beyond", "read of a key that is not known")
			}
		}
		if n == w.V {
			// a value taken from a list of the parser
			if ks := listKinds(a, H); ks != "" && st.facts.eval(mkFn("is:IsMap", tBool, H)) == 0 {
				var outs []outcome
				for _, k := range ks {
					s := st.clone()
					if assumeKind(w, s, H, string(k)) {
						o, _ := ph(s, site, callee, sig, args, pos)
						outs = append(outs, o...)
					}
				}
				return outs, true
			}
			return ph(st, site, callee, sig, args, pos)
		}
		if !isReadName(name) {
			evs := st.ghosts["events"]
			if evs == nil {
				evs = mkSeq()
			}
			st.ghosts["events"] = mkScat(evs, mkSeq(mkFn("ev:"+name, nil, append([]*Term{H}, args...)...)))
			return ph(st, site, callee, sig, args, pos)
		}
		// a read of a document this run has filled: the last write of that key
		if H.op == "fn" && H.s == freshOp && len(args) > 0 && args[0].op == "str" && sig.Results().Len() == 2 {
			if l, ok := logOf(st, H); ok && (isLog(l) || l.op == "seq") {
				for i := len(l.args) - 1; i >= 0; i-- {
					ev := l.args[i]
					if len(ev.args) < 2 || ev.args[0].op != "str" {
						break
					}
					if ev.args[0] != args[0] {
						continue
					}
					v := ev.args[1]
					if "ev:Set"+strings.TrimPrefix(name, "Get") == ev.s && (v.op == "addr" || st.facts.nonNil(v)) {
						return []outcome{ret(st, v, tNil)}, true
					}
					break
				}
			}
		}
		return ph(st, site, callee, sig, args, pos)
	}
	return e, a
}

// knownText is the text a term stands for, when its bytes are known.
func knownText(st *State, t *Term) (string, bool) {
	if t.op == "str" {
		return t.s, true
	}
	if k, ok := st.facts.sconst[t]; ok {
		return k, true
	}
	if t.op == "substr" {
		n, ok := tSub(t.args[2], t.args[1]).smallInt()
		if !ok || n > 8 {
			return "", false
		}
		var b []byte
		for i := int64(0); i < n; i++ {
			lo, hi := st.facts.rng(mkByteAt(t.args[0], tAddC(t.args[1], i)))
			if lo == nil || hi == nil || lo.Cmp(hi) != 0 {
				return "", false
			}
			b = append(b, byte(lo.Int64()))
		}
		return string(b), true
	}
	return "", false
}

// hasLog: the document was filled with entries in this run.
func (w *World) hasLog(st *State, H *Term) bool {
	l, ok := logOf(st, H)
	return ok && l.op == "seq" && len(l.args) > 0
}

var parseCache, exactCache *parseRun

func (w *World) parseExact() *parseRun {
	if exactCache == nil {
		p := w.parse()
		exactCache = &parseRun{fn: p.fn, in: p.in, a: p.a}
		exactCache.run(w, true)
	}
	return exactCache
}

func (w *World) parse() *parseRun {
	if parseCache != nil {
		return parseCache
	}
	p := &parseRun{}
	parseCache = p
	p.fn = w.fn("Parse")
	if p.fn == nil || p.fn.Signature.Params().Len() != 1 || !isStringType(p.fn.Signature.Params().At(0).Type()) || p.fn.Signature.Results().Len() != 2 {
		p.msg = "Parse(string) (document, errors) not found"
		return p
	}
	p.in = mkSym("text", tString)
	p.run(w, false)
	return p
}

func (p *parseRun) run(w *World, exact bool) {
	was := p.a
	p.e, p.a = w.parseEngine()
	p.a.exact = exact
	if exact {
		p.a.slots, p.a.vary = was.slots, was.vary
		p.a.limit = 2500
		p.e.budget *= 20
	}
	p.a.input = p.in
	p.spec = newParseSpec(w, p)
	p.spec.wire(p.a)
	ph := p.e.handles
	p.e.handles = func(st *State, site string, callee *Term, sig *types.Signature, args []*Term, pos token.Pos) ([]outcome, bool) {
		before := st.ghosts["events"]
		outs, ok := ph(st, site, callee, sig, args, pos)
		for _, o := range append(outs, outcome{st: st}) {
			if o.st == nil {
				continue
			}
			if evs := o.st.ghosts["events"]; evs != nil && evs != before && len(evs.args) > 0 {
				p.spec.evPos[evs.args[len(evs.args)-1]] = pos
			}
		}
		return outs, ok
	}
	p.outs = p.e.callFn(newState(), "root", p.fn, []*Term{p.in}, nil, nil)
	p.spec.loop = ""
	for _, o := range p.outs {
		p.a.tell(o.st)
		if o.kind == "ret" {
			p.spec.judge(o)
		}
	}
}

// report adds what the comparison found for a property.
func (p *parseRun) report(w *World, r *Report, prop string) {
	if p.msg != "" {
		r.add("parsing", parseItem, "undecided", p.msg, "")
		return
	}
	var loops []string
	for l := range p.spec.met {
		loops = append(loops, l)
	}
	sort.Strings(loops)
	for _, l := range loops {
		for k, items := range p.spec.met[l] {
			if pr, rule, _ := strings.Cut(k, "|"); pr == prop {
				for it := range items {
					r.ok(rule, it)
				}
			}
		}
		var ks []string
		for k := range p.spec.all[l] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if f := p.spec.all[l][k]; f.prop == prop {
				if f.weak {
					weakHit++
				}
				r.add(f.rule, f.item, f.status, f.msg, f.pos)
			}
		}
	}
	for _, o := range p.outs {
		if o.kind == "undecided" {
			w.abnormal(r, "parsing", parseItem, o)
		}
	}
	r.count("steps compared", p.spec.steps)
}

const parseItem = "Parse"

func init() {
	parsePart("C01", func(w *World, r *Report, p *parseRun) {
		const rule = "parsing returns normally"
		if p.msg != "" {
			r.add(rule, parseItem, "undecided", p.msg, "")
			return
		}
		for fn := range p.e.fnsSeen {
			r.ok(rule, parseItem+": "+fn.RelString(nil))
		}
		for _, o := range p.outs {
			if o.kind == "ret" {
				continue
			}
			item := parseItem
			if o.fn != nil {
				item += ": " + o.fn.RelString(nil)
			}
			w.abnormal(r, rule, item, o)
		}
		p.counts(r)
	})
	for _, id := range []string{"C12", "C16", "C18", "C19"} {
		id := id
		parsePart(id, func(w *World, r *Report, p *parseRun) {
			p.report(w, r, id)
			if id != "C12" {
				p.counts(r)
			}
		})
	}
	parsePart("C03", func(w *World, r *Report, p *parseRun) {
		for _, o := range p.outs {
			if o.kind == "ret" {
				w.xorRule(r, parseItem, p.fn.Signature, o, w.where(p.fn.Pos(), p.fn))
				const rule = "parsing without errors yields a document"
				r.ok(rule, parseItem)
				if len(o.vals) == 2 && errStatus(o.st, o.vals[1]) == "none" {
					switch e := o.st.facts.eval(mkEq(o.vals[0], tNil)); {
					case e == 1 && sure(o.st):
						r.add(rule, parseItem, "violation", "Parse reports no errors and returns no document", w.where(o.pos, o.fn))
						dumpFacts(o.st)
					case e != -1:
						r.add(rule, parseItem, "undecided", "document "+o.vals[0].String(), "")
					}
				}
			} else if o.kind == "undecided" {
				w.abnormal(r, "errors come without a value, and never as an empty list", parseItem, o)
			}
		}
	})
	parsePart("C04", func(w *World, r *Report, p *parseRun) {
		for _, o := range p.outs {
			if o.kind == "ret" {
				w.swallowed(r, parseItem, p.fn.Signature, o, w.where(p.fn.Pos(), p.fn))
			} else if o.kind == "undecided" {
				w.abnormal(r, "a failed step is reported", parseItem, o)
			}
		}
	})
}

func (p *parseRun) counts(r *Report) {
	r.count("parser loop states", p.a.nstates)
	r.count("parser transitions", p.a.ntrans)
	r.count("parser outcomes", len(p.outs))
	r.count("functions interpreted", len(p.e.fnsSeen))
}
