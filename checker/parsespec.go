package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// What a parse has to do is kept beside every state of the parser's loop, as a small machine that reads the same bytes:
// whether the next byte lies inside a string (a quote that follows a backslash does not count), where that string
// began, the key that waits for its value, where a literal began. Each step of the parser is compared with it: its
// list of open containers, the texts it carries along, and what it writes into the document.
//
// Ghosts of a state: spec.q "out", "in", "bad" (the document is already malformed), "err" (errors are noted) or
// "lost" (the parser does something the comparison does not follow); spec.pos the next byte; spec.open the opening
// quote; spec.ko/spec.kh the waiting key; spec.colon; spec.lit the start of the literal; spec.ever whether a container
// was opened.

type parseSpec struct {
	w            *World
	p            *parseRun
	slots        map[string]string                     // loop -> slot of its position
	all          map[string]map[string]*parseFinding   // by loop
	met          map[string]map[string]map[string]bool // loop -> prop+rule -> constructs met
	edges        map[string]map[[2]int]*stepRec
	names, where map[string]string // of loops
	evPos        map[*Term]token.Pos
	steps        int
	loop         string
}

func newParseSpec(w *World, p *parseRun) *parseSpec {
	return &parseSpec{w: w, p: p, evPos: map[*Term]token.Pos{},
		all: map[string]map[string]*parseFinding{}, met: map[string]map[string]map[string]bool{}, edges: map[string]map[[2]int]*stepRec{}, names: map[string]string{}, where: map[string]string{}}
}

// wire attaches the comparison to the loop analysis.
func (s *parseSpec) wire(a *autoPass) {
	a.begin = func(lp *autoRun) {
		delete(s.all, lp.id)
		delete(s.met, lp.id)
		delete(s.edges, lp.id)
		fn := lp.l.head.Parent()
		s.names[lp.id], s.where[lp.id] = "loop of "+fn.RelString(nil), s.w.where(loopPos(lp.l.head), fn)
	}
	a.step = func(lp *autoRun, from *astate, x exit, st *State) {
		s.loop = lp.id
		s.step(lp, from, x, st)
	}
	a.leave = func(lp *autoRun, from *astate, x exit) []exit {
		s.loop = lp.id
		return s.leave(lp, from, x)
	}
	a.edge = s.edge
	a.settle = s.settle
	a.label = s.byteRead
	a.behind = func(st *State) bool { return specGhost(st, "q") == "err" || specGhost(st, "q") == "lost" }
}

func (s *parseSpec) meet(prop, rule, item string) {
	m := s.met[s.loop]
	if m == nil {
		m = map[string]map[string]bool{}
		s.met[s.loop] = m
	}
	k := prop + "|" + rule
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][item] = true
}

func (s *parseSpec) note(prop, rule, item, status, msg, pos string) {
	s.meet(prop, rule, item)
	m := s.all[s.loop]
	if m == nil {
		m = map[string]*parseFinding{}
		s.all[s.loop] = m
	}
	k := prop + "|" + rule + "|" + item + "|" + status
	if m[k] == nil {
		m[k] = &parseFinding{prop, rule, item, status, msg, pos, false}
		if os.Getenv("SPECTRACE") != "" {
			fmt.Fprintf(os.Stderr, "SPEC %s %s %s: %s %s %s\n", prop, rule, item, status, msg, pos)
		}
	}
}

// byteRead names the byte a step read, for traces.
func (s *parseSpec) byteRead(st *State) string {
	pos := specPos(st, "pos")
	if pos == nil {
		return ""
	}
	b := mkByteAt(s.p.in, tAddC(pos, -1))
	lo, hi := st.facts.rng(b)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return fmt.Sprintf("%q", string(rune(lo.Int64())))
	}
	return "."
}

// wrong records a definite mismatch, unless the path rests on something that was given up.
func (s *parseSpec) wrong(st *State, from *astate, prop, rule, item, msg, pos string) {
	if from != nil {
		if t := from.trace(); t != "" {
			msg += " (after the bytes " + t + ")"
		}
	}
	status := "violation"
	if !sure(st) {
		status = "undecided"
	}
	s.note(prop, rule, item, status, msg, pos)
	if status == "undecided" && st.ghosts[weakGhost] != nil {
		s.all[s.loop][prop+"|"+rule+"|"+item+"|"+status].weak = true
	}
	if os.Getenv("SPECTRACE") == "2" && status == "violation" {
		dumpFacts(st)
	}
}

func (s *parseSpec) open(prop, rule, item, msg string) {
	s.note(prop, rule, item, "undecided", msg, "")
}

const (
	ruleBrackets = "containers are opened and closed by the brackets outside strings"
	ruleClosed   = "success means every container was closed and nothing follows"
	ruleBytes    = "every byte of a quoted text is kept"
	ruleStored   = "a finished text is stored, or waits as the key"
	ruleText     = "a stored text is the quoted text without its quotes and escapes"
	ruleKey      = "the key of an entry is the key read for it"
	ruleNested   = "a nested container is stored in the container it stands in"
	ruleEscape   = "parsing undoes the escape of a quote exactly once"
	ruleLiteral  = "a literal is stored as exactly what it denotes, in the documented type"
	ruleDropped  = "a literal is stored or refused"
	ruleRefused  = "a valid literal is not refused"
	ruleProgress = "each step consumes a byte"
)

// ---- reading slots ----

func (lp *autoRun) slotValue(st *State, name string) *Term {
	var r *Term
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if slot == name && r == nil {
			r = v
		}
	})
	return r
}

// learn finds the variable that holds the position: the one whose byte of the input is looked at.
func (s *parseSpec) learn(lp *autoRun, from *astate, st *State) {
	seen := map[*Term]bool{}
	for b := range st.facts.bounds {
		walk(b, func(x *Term) bool {
			if x.op == "byteat" && x.args[0] == s.p.in {
				seen[x.args[1]] = true
			}
			return true
		})
	}
	for b := range st.facts.truth {
		walk(b, func(x *Term) bool {
			if x.op == "byteat" && x.args[0] == s.p.in {
				seen[x.args[1]] = true
			}
			return true
		})
	}
	lp.each(from.st, func(slot string, v *Term, t types.Type) {
		if t != nil && isIntType(t) && v.op == "sym" && seen[v] && s.p.a.slots[lp.id] == "" {
			s.p.a.slots[lp.id] = slot
			s.p.a.changed = true
		}
	})
}

func specGhost(st *State, k string) string {
	if v := st.ghosts["spec."+k]; v != nil && v.op == "str" {
		return v.s
	}
	return ""
}

func specPos(st *State, k string) *Term { return st.ghosts["spec."+k] }

func setSpec(st *State, k string, v *Term) {
	if v == nil {
		delete(st.ghosts, "spec."+k)
		return
	}
	st.ghosts["spec."+k] = v
}

func (s *parseSpec) freeze(st *State, q string) {
	for g := range st.ghosts {
		if strings.HasPrefix(g, "spec.") && g != "spec.pos" {
			delete(st.ghosts, g)
		}
	}
	setSpec(st, "q", mkStr(q))
}

// settle: what the ghosts of a state imply.
func (s *parseSpec) settle(st *State) {
	quote := func(i *Term) {
		c := big.NewInt('"')
		st.facts.addBound(mkByteAt(s.p.in, i), c, c)
	}
	if o := specPos(st, "open"); o != nil {
		quote(o)
	}
	if o, h := specPos(st, "ko"), specPos(st, "kh"); o != nil && h != nil {
		quote(o)
		quote(tAddC(h, -1))
		st.facts.addBound(tSub(h, o), big.NewInt(2), nil)
	}
}

// ---- the step ----

func (s *parseSpec) step(lp *autoRun, from *astate, x exit, st *State) {
	if from == nil {
		if st.ghosts["spec.q"] == nil {
			setSpec(st, "q", mkStr("out"))
			setSpec(st, "ever", mkStr("no"))
			setSpec(st, "pos", mkInt(0))
		} else if len(s.docEvents(lp, st)) > 0 {
			s.freeze(st, "lost")
		}
		return
	}
	slot := s.p.a.slots[lp.id]
	if slot == "" {
		s.learn(lp, from, st)
		return
	}
	v := lp.slotValue(st, slot)
	pos := specPos(st, "pos")
	if v == nil || pos == nil {
		s.freeze(st, "lost")
		return
	}
	d, ok := tSub(v, pos).smallInt()
	if !ok || d != 0 && d != 1 {
		if q := specGhost(st, "q"); q != "lost" && q != "err" {
			s.open("C19", ruleBrackets, "position", fmt.Sprintf("the position moves from %s to %s", pos, v))
			s.open("C18", ruleBytes, "position", fmt.Sprintf("the position moves from %s to %s", pos, v))
			s.open("C16", ruleLiteral, "position", fmt.Sprintf("the position moves from %s to %s", pos, v))
		}
		s.freeze(st, "lost")
		setSpec(st, "pos", v)
		return
	}
	s.advance(lp, from, st, d == 1)
	if d == 1 {
		setSpec(st, "pos", v)
	}
}

// noted: the loop has errors to report.
func (s *parseSpec) noted(lp *autoRun, st *State) bool {
	r := false
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if t != nil && isErrSlice(t) && errStatus(st, v) == "some" {
			r = true
		}
	})
	return r
}

// docEvents are the writes of this step into the document.
func (s *parseSpec) docEvents(lp *autoRun, st *State) []*Term {
	evs := st.ghosts["events"]
	if evs == nil {
		return nil
	}
	var r []*Term
	for _, ev := range evs.args {
		if ev.op != "fn" || len(ev.args) == 0 {
			continue
		}
		H := ev.args[0]
		if H.op == "fn" && H.s == freshOp && lp.stable[H.args[0].args[0]] {
			continue // a helper document made before the loop
		}
		r = append(r, ev)
	}
	return r
}

func (s *parseSpec) byteIs(st *State, i *Term, c byte) bool {
	return ask(st, mkEq0(tAddC(mkByteAt(s.p.in, i), -int64(c))))
}

// unescaped: the byte at i does not follow a backslash.
func (s *parseSpec) unescaped(st *State, i *Term) bool {
	if k, ok := i.smallInt(); ok && k == 0 {
		return true
	}
	return !s.byteIs(st, tAddC(i, -1), '\\')
}

// stack is the list of open containers.
func (s *parseSpec) stack(lp *autoRun, st *State) (string, *Term) {
	name := ""
	var val *Term
	n := 0
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if t == nil {
			return
		}
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return
		}
		el := sl.Elem()
		if p, ok := el.Underlying().(*types.Pointer); ok {
			el = p.Elem()
		}
		if s.w.handleType(el) == s.w.V {
			name, val = slot, v
			n++
		}
	})
	if n != 1 {
		return "", nil
	}
	return name, val
}

func (s *parseSpec) topOf(st *State, list *Term) *Term {
	if list == nil || list.op != "slice" {
		return nil
	}
	if lo, _ := st.facts.rng(mkLen(list)); lo == nil || lo.Sign() <= 0 {
		return nil
	}
	return st.elem(st.seqOf(list), tAddC(mkLen(list), -1), derefSlice(list))
}

func derefSlice(list *Term) types.Type {
	if len(list.args) > 0 && list.args[0].typ != nil {
		if t, ok := list.args[0].typ.Underlying().(*types.Slice); ok {
			return t.Elem()
		}
	}
	return nil
}

func (s *parseSpec) handleOf(st *State, x *Term) *Term {
	if x == nil {
		return nil
	}
	if t := ptrType(x); t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return st.load(x, p.Elem())
		}
	}
	if x.op == "addr" {
		return st.load(x, s.w.V)
	}
	return x
}

func (s *parseSpec) kind(st *State, x *Term) string {
	h := s.handleOf(st, x)
	if h == nil {
		return "?"
	}
	switch {
	case st.facts.eval(mkFn("is:IsMap", tBool, h)) == 1:
		return "M"
	case st.facts.eval(mkFn("is:IsArray", tBool, h)) == 1:
		return "A"
	}
	return "?"
}

// contOf is the container a value or pointer stands for.
func (s *parseSpec) contOf(st *State, x *Term) *Term {
	for i := 0; i < 6 && x != nil; i++ {
		switch {
		case x.op == "iface":
			x = x.args[0]
		case x.op == "addr" && len(x.args) == 1 && x.args[0].op == "obj":
			y := st.content(x.args[0])
			if y == nil || y == x {
				return x
			}
			x = y
		case x.op == "fn" && x.s == vboxOp:
			x = x.args[0]
		default:
			return x
		}
	}
	return x
}

func (s *parseSpec) advance(lp *autoRun, from *astate, st *State, consumed bool) {
	q := specGhost(st, "q")
	if q == "" || q == "lost" || q == "bad" || q == "err" {
		if q != "lost" && q != "" && s.noted(lp, st) {
			s.freeze(st, "err")
		}
		return
	}
	evs := s.docEvents(lp, st)
	if !consumed {
		if len(evs) > 0 {
			s.open("C18", ruleText, "events", "the document is written in a step that consumes nothing")
			s.freeze(st, "lost")
		}
		return
	}
	s.steps++
	pos := specPos(st, "pos")
	next := tAddC(pos, 1)
	slot, list := s.stack(lp, st)
	var old *Term
	if slot != "" {
		old = lp.slotValue(from.st, slot)
	} else {
		s.open("C19", ruleBrackets, "list", "no single list of open containers is found")
	}
	oldTop, oldKind := (*Term)(nil), "?"
	empty := false
	if old != nil {
		if lo, hi := from.st.facts.rng(mkLen(old)); hi != nil && hi.Sign() == 0 {
			empty, oldKind = true, ""
		} else if lo != nil && lo.Sign() > 0 {
			oldTop = s.topOf(from.st, old)
			oldKind = s.kind(st, oldTop)
		}
	}
	noted := s.noted(lp, st)
	grown := func() (int64, bool) {
		if old == nil || list == nil {
			return 0, false
		}
		return tSub(mkLen(list), mkLen(old)).smallInt()
	}
	same := func(what string) {
		if noted || slot == "" {
			return
		}
		s.meet("C19", ruleBrackets, what)
		g, ok := grown()
		switch {
		case !ok:
			s.open("C19", ruleBrackets, what, "length of the list of open containers not followed")
		case g != 0:
			s.wrong(st, from, "C19", ruleBrackets, what, fmt.Sprintf("%s changes the number of open containers by %d", what, g), s.at(lp, st))
		}
	}
	inside := q == "in"
	quote := s.byteIs(st, pos, '"') && s.unescaped(st, pos)
	switch {
	case inside && !quote:
		same("a byte inside a string")
		s.kept(lp, from, st, pos, noted)
		for _, ev := range evs {
			if !noted {
				s.wrong(st, from, "C18", ruleText, opName(ev), opName(ev)+" is called before the string it stands in is closed", s.posOf(ev))
			}
		}
	case inside:
		same("the end of a string")
		s.closed(lp, from, st, evs, pos, noted, oldKind, oldTop)
		setSpec(st, "q", mkStr("out"))
		setSpec(st, "open", nil)
	case quote:
		same("the start of a string")
		if empty && specGhost(st, "ever") == "yes" {
			s.freeze(st, "bad")
			break
		}
		setSpec(st, "q", mkStr("in"))
		setSpec(st, "open", pos)
		s.kept(lp, from, st, pos, noted)
	default:
		s.outside(lp, from, st, evs, pos, noted, empty, oldKind, oldTop, list, grown, same)
	}
	if noted {
		if inside == false && !quote {
			s.refusal(lp, from, st, pos, oldKind)
		}
		s.freeze(st, "err")
	}
	_ = next
}

func (s *parseSpec) at(lp *autoRun, st *State) string {
	fn := lp.l.head.Parent()
	return s.w.where(fn.Pos(), fn)
}

func (s *parseSpec) posOf(ev *Term) string {
	if p, ok := s.evPos[ev]; ok {
		return s.w.where(p, nil)
	}
	return ""
}

func opName(ev *Term) string { return strings.TrimPrefix(ev.s, "ev:") }

// outside handles a byte outside any string that is not a quote.
func (s *parseSpec) outside(lp *autoRun, from *astate, st *State, evs []*Term, pos *Term, noted, empty bool, oldKind string, oldTop, list *Term, grown func() (int64, bool), same func(string)) {
	ever := specGhost(st, "ever") == "yes"
	is := func(c byte) bool { return s.byteIs(st, pos, c) }
	blank := func() bool { return is(' ') || is('\t') || is('\n') || is('\r') }
	for _, b := range []struct {
		c    byte
		kind string
		push bool
	}{{'{', "M", true}, {'[', "A", true}, {'}', "M", false}, {']', "A", false}} {
		if !is(b.c) {
			continue
		}
		what := fmt.Sprintf("%q outside a string", string(b.c))
		g, ok := grown()
		if b.push {
			if empty && ever {
				s.freeze(st, "bad")
				return
			}
			setSpec(st, "ever", mkStr("yes"))
			if noted {
				return
			}
			s.meet("C19", ruleBrackets, what)
			if !ok || list == nil {
				s.open("C19", ruleBrackets, what, "length of the list of open containers not followed")
				s.freeze(st, "lost")
				return
			}
			if g != 1 {
				s.wrong(st, from, "C19", ruleBrackets, what, fmt.Sprintf("%s changes the number of open containers by %d", what, g), s.at(lp, st))
				s.freeze(st, "lost")
				return
			}
			top := s.topOf(st, list)
			switch k := s.kind(st, top); {
			case k == "?":
				s.open("C19", ruleBrackets, what, "kind of the container opened is not known")
			case k != b.kind:
				s.wrong(st, from, "C19", ruleBrackets, what, what+" opens a container of the other kind", s.at(lp, st))
			}
			if !empty {
				s.nested(lp, from, st, evs, oldKind, oldTop, top, what)
			}
			s.clear(st)
			return
		}
		if empty || oldKind != "?" && oldKind != "" && oldKind != b.kind {
			s.freeze(st, "bad")
			return
		}
		if !noted {
			s.meet("C19", ruleBrackets, what)
			switch {
			case oldKind == "?":
				s.open("C19", ruleBrackets, what, "kind of the container closed is not known")
			case !ok:
				s.open("C19", ruleBrackets, what, "length of the list of open containers not followed")
			case g != -1:
				s.wrong(st, from, "C19", ruleBrackets, what, fmt.Sprintf("%s changes the number of open containers by %d", what, g), s.at(lp, st))
				s.freeze(st, "lost")
				return
			}
			s.literal(lp, from, st, evs, pos, oldKind, oldTop)
		}
		if !noted {
			s.clear(st)
		}
		return
	}
	if empty && ever {
		if !blank() {
			s.freeze(st, "bad")
		}
		return
	}
	same("another byte outside a string")
	if is(',') {
		if !noted {
			s.literal(lp, from, st, evs, pos, oldKind, oldTop)
			s.clear(st)
		}
		return
	}
	if is(':') && specPos(st, "ko") != nil && specGhost(st, "colon") == "" {
		setSpec(st, "colon", mkStr("yes"))
		return
	}
	if blank() || is('\\') {
		return
	}
	// a byte of a literal
	value := oldKind == "A" || oldKind == "M" && specGhost(st, "colon") != ""
	if value && !noted {
		if specPos(st, "lit") == nil {
			setSpec(st, "lit", pos)
		}
		s.carried(lp, from, st, pos, "C16", ruleDropped, "a byte of a literal")
	}
}

// clear: the entry is complete.
func (s *parseSpec) clear(st *State) {
	for _, k := range []string{"ko", "kh", "colon", "lit"} {
		setSpec(st, k, nil)
	}
}

// carried: some text of the parser ends with the byte just read.
func (s *parseSpec) carried(lp *autoRun, from *astate, st *State, pos *Term, prop, rule, what string) {
	s.meet(prop, rule, what)
	next := tAddC(pos, 1)
	texts, vague, found := 0, "", false
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if t == nil || !isStringType(t) && !holdsText(st, v, t) {
			return
		}
		v = textIn(st, v, t)
		texts++
		switch {
		case v.op == "substr" && v.args[0] == s.p.in && tSub(v.args[2], next) == mkInt(0):
			found = true
		case v.op == "substr" && v.args[0] == s.p.in, v.op == "str":
		case v == lp.entryVals[slot]:
		default:
			if vague == "" {
				vague = slot + " holds " + v.String()
			}
		}
	})
	if found {
		return
	}
	// a position that marks the start of a text carries it too
	starts := []*Term{specPos(st, "open"), specPos(st, "lit")}
	if o := starts[0]; o != nil {
		starts = append(starts, tAddC(o, 1))
	}
	marks := false
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if t == nil || !isIntType(t) || slot == s.p.a.slots[lp.id] {
			return
		}
		for _, o := range starts {
			if o != nil && eqPos(v, o) {
				marks = true
			}
		}
	})
	if marks || texts == 0 {
		s.open(prop, rule, what, "the text read so far is kept as positions or not at all")
		return
	}
	// a text that took the byte up, but not as it is
	altered, reason := "", ""
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if t == nil || !isStringType(t) || v == lp.entryVals[slot] {
			return
		}
		ps := []*Term{v}
		if v.op == "cat" {
			ps = v.args
		}
		if len(ps) == 1 && v.op == "str" || len(ps) > 1 && !(ps[0].op == "substr" && ps[0].args[0] == s.p.in && eqPos(ps[0].args[2], pos)) {
			return
		}
		if r := s.changes(st, ps[len(ps)-1], pos); r != "" {
			altered, reason = v.String(), r
		}
	})
	if altered != "" {
		s.wrong(st, from, prop, rule, what, what+" is not carried over as it is ("+reason+"): the text read becomes "+altered, s.at(lp, st))
		return
	}
	if vague != "" {
		s.open(prop, rule, what, vague)
		return
	}
	s.wrong(st, from, prop, rule, what, what+" is dropped: no text of the parser takes it up", s.at(lp, st))
}

// changers are functions that do not give every text back as it is.
var changers = map[string]bool{"strings.ToLower": true, "strings.ToUpper": true, "strings.Title": true, "strings.ToTitle": true,
	"strings.ToValidUTF8": true, "html.EscapeString": true, "html.UnescapeString": true, "net/url.QueryEscape": true,
	"net/url.PathEscape": true, "strconv.Quote": true, "strconv.QuoteToASCII": true, "strings.TrimLeft": true, "strings.TrimRight": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.Trim": true, "tolower": true, "toupper": true, "trim": true, "replace": true}

// changes says how a piece of text made of the byte at pos differs from it, "" when it does not or is not understood.
func (s *parseSpec) changes(st *State, t *Term, pos *Term) string {
	at := func(x *Term) bool {
		return x.op == "substr" && x.args[0] == s.p.in && eqPos(x.args[1], pos) || x.op == "byteat" && x.args[0] == s.p.in && eqPos(x.args[1], pos)
	}
	lo, hi := st.facts.rng(mkByteAt(s.p.in, pos))
	high := hi == nil || hi.Cmp(big.NewInt(128)) >= 0
	switch {
	case t.op == "str" && t.s != "":
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 && t.s == string([]byte{byte(lo.Int64())}) {
			return ""
		}
		return fmt.Sprintf("%q is put in its place", t.s)
	case t.op == "fn" && t.s == "runestr":
		x := t.args[0]
		if x.op == "fn" && x.s == "rune1" {
			x = x.args[0]
		}
		if at(x) && high {
			return "a byte of a multi-byte character is replaced by the text of a character"
		}
	case t.op == "fn" && changers[t.s] && len(t.args) > 0 && at(t.args[0]) && (t.s != "strings.ToValidUTF8" || high):
		if k, ok := st.facts.rng(mkByteAt(s.p.in, pos)); k != nil && ok != nil && k.Cmp(ok) == 0 && t.s != "strings.ToValidUTF8" {
			return "" // one byte only, which may be kept
		}
		return t.s
	}
	return ""
}

// holdsText: a variable that is no string but holds one (a builder).
func holdsText(st *State, v *Term, t types.Type) bool {
	return isBuilderT(t) || isBuilderT(types.NewPointer(t))
}

func textIn(st *State, v *Term, t types.Type) *Term {
	if isStringType(t) {
		return v
	}
	if isBuilderT(types.NewPointer(t)) {
		return textOfSeq(v)
	}
	return textOfSeq(st.load(v, nil))
}

func (s *parseSpec) kept(lp *autoRun, from *astate, st *State, pos *Term, noted bool) {
	if noted {
		return
	}
	s.carried(lp, from, st, pos, "C18", ruleBytes, "a byte of a quoted text")
}

// ---- texts ----

type normed struct {
	lo, hi *Term
	ops    []string // from the inside out
	ok     bool
	konst  bool
}

// normal unwinds what was done to a stretch of the input.
func (s *parseSpec) normal(t *Term) normed {
	switch {
	case t.op == "str":
		return normed{konst: true, ok: t.s == "", lo: mkInt(0), hi: mkInt(0)}
	case t.op == "substr" && t.args[0] == s.p.in:
		return normed{lo: t.args[1], hi: t.args[2], ok: true}
	case t.op == "substr":
		n := s.normal(t.args[0])
		lo, ok := t.args[1].smallInt()
		hi, ok2 := tSub(mkLen(t.args[0]), t.args[2]).smallInt()
		if ok && ok2 && lo == 1 && hi == 1 {
			n.ops = append(n.ops, "dequote")
		} else {
			n.ops = append(n.ops, "cut")
		}
		return n
	case t.op == "fn" && t.s == "trimspace":
		n := s.normal(t.args[0])
		n.ops = append(n.ops, "trim")
		return n
	case t.op == "fn" && t.s == "replaceall" && t.args[1].op == "str" && t.args[2].op == "str":
		n := s.normal(t.args[0])
		switch o, r := t.args[1].s, t.args[2].s; {
		case o == "\\\"" && r == "\"":
			n.ops = append(n.ops, "unescape")
		case r == "" && strings.Trim(o, " \t\r\n\v\f\\") == "":
			n.ops = append(n.ops, "strip")
		default:
			n.ops = append(n.ops, fmt.Sprintf("replace %q by %q", o, r))
		}
		return n
	case t.op == "fn" && changers[t.s] && len(t.args) > 0:
		n := s.normal(t.args[0])
		n.ops = append(n.ops, t.s)
		return n
	}
	return normed{}
}

func eqPos(a, b *Term) bool { return a != nil && b != nil && tSub(a, b) == mkInt(0) }

// quoted checks that a text is the content of a quoted stretch of the input.
func (s *parseSpec) quoted(st *State, from *astate, what string, t *Term, lo, hi *Term, exact bool, pos string) {
	s.meet("C18", ruleText, what)
	s.meet("C12", ruleEscape, what)
	n := s.normal(t)
	if !n.ok {
		if t.op == "str" {
			s.wrong(st, from, "C18", ruleText, what, fmt.Sprintf("%s stores the fixed text %q", what, t.s), pos)
			return
		}
		s.open("C18", ruleText, what, "text not followed: "+t.String())
		s.open("C12", ruleEscape, what, "text not followed: "+t.String())
		return
	}
	// which bytes
	if eqPos(n.lo, tAddC(lo, 1)) && eqPos(n.hi, tAddC(hi, -1)) {
		n.lo, n.hi, n.ops = lo, hi, append([]string{"dequote"}, n.ops...)
	}
	good := eqPos(n.hi, hi) && eqPos(n.lo, lo)
	if !good && eqPos(n.hi, hi) && !exact {
		if l, _ := st.facts.rng(tSub(lo, n.lo)); l != nil && l.Sign() >= 0 {
			good = true
		}
	}
	if !good {
		d1, ok1 := tSub(n.lo, lo).smallInt()
		d2, ok2 := tSub(n.hi, hi).smallInt()
		if ok1 && ok2 && (d1 > 0 || d2 != 0) || ok2 && d2 != 0 {
			s.wrong(st, from, "C18", ruleText, what, fmt.Sprintf("%s stores the bytes %s..%s of the input, the text stands at %s..%s", what, n.lo, n.hi, lo, hi), pos)
		} else {
			s.open("C18", ruleText, what, fmt.Sprintf("bytes %s..%s against %s..%s", n.lo, n.hi, lo, hi))
		}
		return
	}
	// what was done to them
	deq, esc := 0, 0
	for _, op := range n.ops {
		switch op {
		case "dequote":
			deq++
		case "unescape":
			esc++
		case "trim":
			if deq > 0 {
				s.wrong(st, from, "C18", ruleText, what, what+" trims blanks inside the quotes", pos)
				return
			}
		default:
			s.wrong(st, from, "C18", ruleText, what, what+" changes the bytes of the text: "+op, pos)
			return
		}
	}
	if deq != 1 {
		s.wrong(st, from, "C18", ruleText, what, fmt.Sprintf("%s takes off the enclosing quotes %d times", what, deq), pos)
	}
	if esc != 1 {
		msg := fmt.Sprintf("%s undoes the escape of quotes %d times", what, esc)
		s.wrong(st, from, "C12", ruleEscape, what, msg, pos)
		s.wrong(st, from, "C18", ruleText, what, msg, pos)
	}
}

// closed handles the closing quote of a string.
func (s *parseSpec) closed(lp *autoRun, from *astate, st *State, evs []*Term, pos *Term, noted bool, oldKind string, oldTop *Term) {
	if noted {
		return
	}
	open, next := specPos(st, "open"), tAddC(pos, 1)
	const what = "the end of a quoted text"
	s.meet("C18", ruleStored, what)
	if len(evs) > 0 {
		for _, ev := range evs {
			s.entry(lp, from, st, ev, oldKind, oldTop)
			t := eventText(ev)
			if t == nil {
				s.wrong(st, from, "C18", ruleStored, opName(ev), opName(ev)+" stores something that is not text for a quoted text", s.posOf(ev))
				continue
			}
			s.quoted(st, from, opName(ev), t, open, next, false, s.posOf(ev))
		}
		if len(evs) > 1 {
			s.wrong(st, from, "C18", ruleStored, what, "a quoted text is stored more than once", s.posOf(evs[1]))
		}
		s.clear(st)
		return
	}
	key := oldKind == "M" && specPos(st, "ko") == nil
	found, vague := false, ""
	lp.each(st, func(slot string, v *Term, t types.Type) {
		if t == nil || !isStringType(t) && !holdsText(st, v, t) {
			return
		}
		v = textIn(st, v, t)
		switch {
		case v.op == "substr" && v.args[0] == s.p.in && tSub(v.args[2], next) == mkInt(0):
			if l, _ := st.facts.rng(tSub(open, v.args[1])); l != nil && l.Sign() >= 0 {
				found = true
			}
		case v.op == "str" || v == lp.entryVals[slot] || v.op == "substr" && v.args[0] == s.p.in:
		default:
			vague = slot + " holds " + v.String()
		}
	})
	switch {
	case found && key:
		setSpec(st, "ko", open)
		setSpec(st, "kh", next)
	case found:
	case vague != "":
		s.open("C18", ruleStored, what, vague)
		if key {
			s.freeze(st, "lost")
		}
	default:
		marks := false
		lp.each(st, func(slot string, v *Term, t types.Type) {
			if t != nil && isIntType(t) && (eqPos(v, open) || eqPos(v, tAddC(open, 1))) {
				marks = true
			}
		})
		if marks {
			s.open("C18", ruleStored, what, "the text is kept as positions")
			s.freeze(st, "lost")
			return
		}
		s.wrong(st, from, "C18", ruleStored, what, "a quoted text is neither stored nor kept as a key", s.at(lp, st))
		s.freeze(st, "lost")
	}
}

// eventText is the text a write stores, nil when it stores something else.
func eventText(ev *Term) *Term {
	name := opName(ev)
	if !strings.Contains(name, "String") {
		return nil
	}
	if len(ev.args) < 2 {
		return nil
	}
	return ev.args[len(ev.args)-1]
}

// entry checks where a write goes: to the innermost container, under the key that was read.
func (s *parseSpec) entry(lp *autoRun, from *astate, st *State, ev *Term, oldKind string, oldTop *Term) {
	name := opName(ev)
	s.meet("C18", ruleNested, name)
	H := ev.args[0]
	ok := false
	if oldTop != nil {
		h := s.handleOf(st, oldTop)
		for _, get := range []string{"GetMap", "GetArray", "GetObject"} {
			if x, has := fieldNamed(s.w.V, get); has {
				r := mkFn("res:"+get, x.sig.Results().At(0).Type(), h)
				if H == r {
					ok = true
				}
				if p, isP := r.typ.Underlying().(*types.Pointer); isP && H == st.load(r, p.Elem()) {
					ok = true
				}
			}
		}
		if c := s.contOf(st, h); c != nil && c == s.contOf(st, H) {
			ok = true
		}
	}
	if !ok {
		if x := s.otherElem(st, lp, from, H); x != "" {
			s.wrong(st, from, "C18", ruleNested, name, name+" writes into "+x+", not into the innermost open container", s.posOf(ev))
		} else {
			s.open("C18", ruleNested, name, "written container not recognised: "+H.String())
		}
	}
	if oldKind != "M" || len(ev.args) < 2 {
		return
	}
	s.meet("C18", ruleKey, name)
	ko, kh := specPos(st, "ko"), specPos(st, "kh")
	if ko == nil {
		s.open("C18", ruleKey, name, "no key is waiting")
		return
	}
	n := s.normal(ev.args[1])
	if n.ok && !n.konst {
		if eqPos(n.lo, ko) && eqPos(n.hi, kh) || eqPos(n.lo, tAddC(ko, 1)) && eqPos(n.hi, tAddC(kh, -1)) {
			s.quoted(st, from, "the key of "+name, ev.args[1], ko, kh, true, s.posOf(ev))
			return
		}
		s.open("C18", ruleKey, name, fmt.Sprintf("key is bytes %s..%s, read were %s..%s", n.lo, n.hi, ko, kh))
		return
	}
	if ev.args[1].op == "str" {
		s.wrong(st, from, "C18", ruleKey, name, fmt.Sprintf("%s stores under the fixed key %q", name, ev.args[1].s), s.posOf(ev))
		return
	}
	s.open("C18", ruleKey, name, "key not followed: "+ev.args[1].String())
}

// otherElem recognises an open container that is not the innermost one.
func (s *parseSpec) otherElem(st *State, lp *autoRun, from *astate, H *Term) string {
	slot, _ := s.stack(lp, st)
	if slot == "" {
		return ""
	}
	n := mkLen(lp.slotValue(from.st, slot))
	r := ""
	walk(H, func(x *Term) bool {
		if x.op == "elem" && len(x.args) == 2 && r == "" {
			if k, ok := x.args[1].smallInt(); ok && st.facts.eval(mkEq0(tSub(tAddC(n, -1), x.args[1]))) != 1 {
				r = fmt.Sprintf("open container number %d", k)
			} else if d, ok := tSub(n, x.args[1]).smallInt(); ok && d != 1 {
				r = fmt.Sprintf("the open container %d before the innermost", d-1)
			}
		}
		return r == ""
	})
	return r
}

// nested checks that a container that is opened is stored in the one it stands in.
func (s *parseSpec) nested(lp *autoRun, from *astate, st *State, evs []*Term, oldKind string, oldTop, top *Term, what string) {
	s.meet("C18", ruleNested, what)
	if len(evs) == 0 {
		s.wrong(st, from, "C18", ruleNested, what, what+" opens a container that is not stored in the one it stands in", s.at(lp, st))
		return
	}
	if len(evs) > 1 {
		s.wrong(st, from, "C18", ruleNested, what, what+" writes more than one entry", s.posOf(evs[1]))
	}
	ev := evs[0]
	s.entry(lp, from, st, ev, oldKind, oldTop)
	if len(ev.args) < 2 {
		s.wrong(st, from, "C18", ruleNested, what, opName(ev)+" stores no container", s.posOf(ev))
		return
	}
	a, b := s.contOf(st, ev.args[len(ev.args)-1]), s.contOf(st, top)
	fresh := func(x *Term) bool { return x != nil && x.op == "fn" && x.s == freshOp }
	switch {
	case a == b && a != nil:
	case fresh(a) && fresh(b):
		s.wrong(st, from, "C18", ruleNested, what, what+" stores one container and fills another", s.posOf(ev))
	default:
		s.open("C18", ruleNested, what, fmt.Sprintf("stored %v, opened %v", a, b))
	}
}

// ---- literals ----

var intOps = map[string][2]interface{}{
	"Int8": {8, false}, "Int16": {16, false}, "Int32": {32, false}, "Int64": {64, false},
	"UInt8": {8, true}, "UInt16": {16, true}, "UInt32": {32, true}, "UInt64": {64, true},
	"Uint8": {8, true}, "Uint16": {16, true}, "Uint32": {32, true}, "Uint64": {64, true},
	"Int": {64, false}, "UInt": {64, true}, "Uint": {64, true},
}

func valueType(name string) string {
	for _, p := range []string{"Set", "Append", "Add", "Put"} {
		name = strings.TrimPrefix(name, p)
	}
	return strings.TrimSuffix(name, "Value")
}

// literalText: the term is the literal read, with blanks and stray escapes taken out.
func (s *parseSpec) literalText(st *State, t *Term, lit, pos *Term) (is, known bool) {
	n := s.normal(t)
	if !n.ok || n.konst {
		return false, false
	}
	for _, op := range n.ops {
		if op != "strip" && op != "trim" && op != "unescape" {
			return false, true
		}
	}
	if !eqPos(n.hi, pos) {
		return false, false
	}
	if eqPos(n.lo, lit) {
		return true, true
	}
	if l, _ := st.facts.rng(tSub(lit, n.lo)); l != nil && l.Sign() >= 0 {
		return true, true
	}
	return false, false
}

// words are the constants the literal is known to be or not to be.
func (s *parseSpec) word(st *State, lit, pos *Term) (string, bool) {
	var ts []*Term
	for t := range st.facts.sconst {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		if is, _ := s.literalText(st, t, lit, pos); is {
			return st.facts.sconst[t], true
		}
	}
	return "", false
}

// atoms about the literal
func (s *parseSpec) litFact(st *State, lit, pos *Term, f func(x *Term) bool) bool {
	r := false
	look := func(b *Term) {
		walk(b, func(x *Term) bool {
			if !r && x.op == "fn" && len(x.args) > 0 {
				if is, _ := s.literalText(st, x.args[0], lit, pos); is && f(x) {
					r = true
				}
			}
			return !r
		})
	}
	for b := range st.facts.truth {
		look(b)
	}
	for b := range st.facts.bounds {
		look(b)
	}
	return r
}

func (s *parseSpec) counts(st *State, lit, pos *Term, sub string) (yes, no bool) {
	s.litFact(st, lit, pos, func(x *Term) bool {
		if x.s != "count" || len(x.args) != 2 || x.args[1].op != "str" || x.args[1].s != sub {
			return false
		}
		lo, hi := st.facts.rng(x)
		if lo != nil && lo.Sign() > 0 {
			yes = true
		}
		if hi != nil && hi.Sign() == 0 {
			no = true
		}
		return yes || no
	})
	return
}

// negative: the path knows whether the literal starts with a minus.
func (s *parseSpec) negative(st *State, lit, pos *Term) (yes, no bool) {
	yes, no = s.counts(st, lit, pos, "-")
	if yes || no {
		return
	}
	minus := func(i *Term) {
		lo, hi := st.facts.rng(i)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			if lo.Int64() == '-' {
				yes = true
			} else {
				no = true
			}
			return
		}
		switch st.facts.eval(mkEq0(tAddC(i, -'-'))) {
		case 1:
			yes = true
		case -1:
			no = true
		}
	}
	minus(mkByteAt(s.p.in, lit))
	if yes || no {
		return
	}
	see := func(b *Term) {
		walk(b, func(x *Term) bool {
			if x.op == "byteat" && x.args[1] == mkInt(0) {
				if is, _ := s.literalText(st, x.args[0], lit, pos); is {
					minus(x)
				}
			}
			return true
		})
	}
	for b := range st.facts.truth {
		see(b)
	}
	for b := range st.facts.bounds {
		see(b)
	}
	return
}

// void: the path holds only for a literal that cannot exist.
func (s *parseSpec) void(st *State, lit, pos *Term) bool {
	if k, ok := s.word(st, lit, pos); ok && k == "" {
		return true // it has a byte that is neither blank nor an escape
	}
	for b := range st.facts.bounds {
		if b.op == "len" {
			if hi := st.facts.bounds[b].hi; hi != nil && hi.Sign() == 0 {
				if is, _ := s.literalText(st, b.args[0], lit, pos); is {
					return true
				}
			}
		}
	}
	// a number with a minus is not positive, one without is not negative
	yes, no := s.negative(st, lit, pos)
	bad := false
	s.litFact(st, lit, pos, func(x *Term) bool {
		if x.s == "num" {
			lo, hi := st.facts.rng(x)
			if yes && lo != nil && lo.Sign() > 0 || no && hi != nil && hi.Sign() < 0 {
				bad = true
			}
		}
		return bad
	})
	return bad
}

// literal checks what a separator or closing bracket makes of the literal before it.
func (s *parseSpec) literal(lp *autoRun, from *astate, st *State, evs []*Term, pos *Term, oldKind string, oldTop *Term) {
	lit := specPos(st, "lit")
	if lit == nil {
		for _, ev := range evs {
			if t := eventText(ev); t != nil {
				continue // stray escaped quotes
			}
			s.note("C16", ruleLiteral, opName(ev), "undecided", "written where no literal was read", s.posOf(ev))
		}
		return
	}
	where := map[string]string{"M": "entry", "A": "element"}[oldKind]
	if where == "" {
		where = "value"
	}
	if s.void(st, lit, pos) {
		return
	}
	s.meet("C16", ruleDropped, where)
	if len(evs) == 0 {
		s.wrong(st, from, "C16", ruleDropped, where, "a literal is neither stored nor refused in an "+where, s.at(lp, st))
		return
	}
	if len(evs) > 1 {
		s.wrong(st, from, "C16", ruleDropped, where, "a literal is stored more than once", s.posOf(evs[1]))
	}
	for _, ev := range evs {
		s.entry(lp, from, st, ev, oldKind, oldTop)
		s.literalEvent(from, st, ev, lit, pos, oldKind)
	}
}

func (s *parseSpec) literalEvent(from *astate, st *State, ev *Term, lit, pos *Term, oldKind string) {
	name := opName(ev)
	s.meet("C16", ruleLiteral, name)
	bad := func(f string, a ...interface{}) {
		s.wrong(st, from, "C16", ruleLiteral, name, fmt.Sprintf(f, a...), s.posOf(ev))
	}
	word, hasWord := s.word(st, lit, pos)
	typ := valueType(name)
	n := 1
	if oldKind == "M" {
		n = 2
	}
	var arg *Term
	if len(ev.args) > n {
		arg = ev.args[n]
		if arg.op == "addr" && typ != "" {
			arg = st.content(arg.args[0])
		}
	}
	switch {
	case typ == "Nil" || typ == "Null" || arg != nil && arg.op == "nil":
		if !hasWord || word != "null" {
			bad("%s stores null for a literal that is not known to be null", name)
		}
		return
	case arg == nil:
		s.open("C16", ruleLiteral, name, "no value")
		return
	case typ == "Bool":
		switch {
		case !arg.isBool() || arg.op != "true" && arg.op != "false":
			s.open("C16", ruleLiteral, name, "value "+arg.String())
		case !hasWord:
			bad("%s stores %s for a literal that is not known to be %s", name, arg.op, arg.op)
		case word != arg.op:
			bad("%s stores %s for the literal %s", name, arg.op, word)
		}
		return
	case typ == "String":
		if yes, _ := s.counts(st, lit, pos, "\""); yes {
			return
		}
		if _, no := s.counts(st, lit, pos, "\""); no {
			bad("%s stores a literal that is not quoted as text", name)
			return
		}
		s.open("C16", ruleLiteral, name, "text for a literal")
		return
	case typ == "Float64" || typ == "Float32":
		x := arg
		narrow := false
		if x.op == "fn" && x.s == "tofloat32" {
			x, narrow = x.args[0], true
		}
		if x.op != "fn" || x.s != "parsefloat" {
			if contains(x, func(y *Term) bool { return y.op == "fn" && (y.s == "parsefloat" || y.s == "num") }) || x.op == "float" {
				bad("%s stores %s, not the float its digits denote", name, arg)
			} else {
				s.open("C16", ruleLiteral, name, "value "+arg.String())
			}
			return
		}
		if is, known := s.literalText(st, x.args[0], lit, pos); !is {
			if known {
				bad("%s stores the float of other digits: %s", name, x.args[0])
			} else {
				s.open("C16", ruleLiteral, name, "digits "+x.args[0].String())
			}
			return
		}
		bits, _ := x.args[1].smallInt()
		if typ == "Float64" && (narrow || bits == 32) {
			bad("%s stores a float that was narrowed to 32 bits", name)
		}
		if typ == "Float32" && bits == 64 && st.facts.eval(mkFn("parsefloat.ok", tBool, x.args[0], mkInt(32))) == -1 {
			bad("%s stores a decimal that does not fit 32 bits", name)
		}
		if typ == "Float32" && !narrow {
			s.open("C16", ruleLiteral, name, "value "+arg.String())
		}
		yes, no := s.counts(st, lit, pos, ".")
		tried := s.litFact(st, lit, pos, func(y *Term) bool { return y.s == "isint" || y.s == "isuint" })
		if no || !yes && !tried && !s.looks(st, lit, pos) {
			bad("%s stores an integer literal as a float", name)
		}
		return
	}
	sp, ok := intOps[typ]
	if !ok {
		s.open("C16", ruleLiteral, name, "kind of the value not known")
		return
	}
	bits, uns := sp[0].(int), sp[1].(bool)
	if arg.op != "fn" || arg.s != "num" {
		if arg.op == "sym" && strings.HasSuffix(arg.s, "!v") {
			bad("%s stores what is left of a conversion that failed", name)
		} else if contains(arg, func(y *Term) bool { return y.op == "fn" && y.s == "num" }) || arg.op == "int" {
			bad("%s stores %s, not the number of the literal", name, arg)
		} else {
			s.open("C16", ruleLiteral, name, "value "+arg.String())
		}
		return
	}
	if is, known := s.literalText(st, arg.args[0], lit, pos); !is {
		if known {
			bad("%s stores the number of other digits: %s", name, arg.args[0])
		} else {
			s.open("C16", ruleLiteral, name, "digits "+arg.args[0].String())
		}
		return
	}
	lo, hi := st.facts.rng(arg)
	neg, pos2 := s.negative(st, lit, pos)
	if neg {
		hi = minB(hi, new(big.Int))
	}
	if pos2 {
		lo = maxB(lo, new(big.Int))
	}
	tl, th := intRange(sizedInt(bits, uns))
	if lo == nil || hi == nil || lo.Cmp(tl) < 0 || hi.Cmp(th) > 0 {
		bad("%s stores a number between %s and %s, which need not fit it", name, bound(lo), bound(hi))
		return
	}
	if !uns && !neg && hi.Sign() >= 0 {
		bad("%s stores a number up to %s that is not negative in a signed type", name, hi)
		return
	}
	for _, b := range []int{8, 16, 32} {
		if b >= bits {
			break
		}
		sl, sh := intRange(sizedInt(b, uns))
		if lo.Cmp(sh) <= 0 && hi.Cmp(sl) >= 0 {
			bad("%s stores numbers between %s and %s, some of which fit %d bits", name, lo, hi, b)
			return
		}
	}
}

// looks: the path knows something about single bytes of the literal, beyond its start.
func (s *parseSpec) looks(st *State, lit, pos *Term) bool {
	r := s.litFact(st, lit, pos, func(y *Term) bool {
		return y.s != "count" && y.s != "parsefloat.ok" && y.s != "parsefloat" && y.s != "replaceall" && y.s != "trimspace" && y.s != "num"
	})
	for b := range st.facts.truth {
		walk(b, func(x *Term) bool {
			if x.op == "byteat" && x.args[0] != s.p.in && x.args[1] != mkInt(0) {
				r = true
			}
			return true
		})
	}
	return r
}

func bound(b *big.Int) string {
	if b == nil {
		return "any"
	}
	return b.String()
}

func contains(t *Term, f func(*Term) bool) bool {
	r := false
	walk(t, func(x *Term) bool {
		if f(x) {
			r = true
		}
		return !r
	})
	return r
}

// refusal: errors appear at the end of a literal; was it a valid one?
func (s *parseSpec) refusal(lp *autoRun, from *astate, st *State, pos *Term, oldKind string) {
	lit := specPos(from.st, "lit")
	if lit == nil || specGhost(from.st, "q") != "out" {
		return
	}
	end := false
	for _, c := range []byte{',', '}', ']'} {
		if s.byteIs(st, pos, c) {
			end = c == ',' || c == '}' && oldKind == "M" || c == ']' && oldKind == "A"
			break
		}
	}
	if !end || oldKind == "M" && specPos(from.st, "ko") == nil {
		return
	}
	if s.void(st, lit, pos) {
		return
	}
	where := map[string]string{"M": "entry", "A": "element"}[oldKind]
	s.meet("C16", ruleRefused, where)
	if w, ok := s.word(st, lit, pos); ok {
		if w == "true" || w == "false" || w == "null" {
			s.wrong(st, from, "C16", ruleRefused, where, "the literal "+w+" is refused in an "+where, s.at(lp, st))
		}
		return
	}
	msg := ""
	neg, _ := s.negative(st, lit, pos)
	s.litFact(st, lit, pos, func(x *Term) bool {
		switch {
		case x.s == "isint" || x.s == "isuint":
			if st.facts.eval(x) != 1 {
				return false
			}
			num := mkFn("num", nil, x.args[0])
			lo, hi := st.facts.rng(num)
			if neg {
				hi = minB(hi, new(big.Int))
			}
			ml, _ := intRange(types.Typ[types.Int64])
			_, mh := intRange(types.Typ[types.Uint64])
			lo, hi = maxB(lo, ml), minB(hi, mh)
			if lo.Cmp(hi) <= 0 {
				msg = fmt.Sprintf("integers between %s and %s are refused in an %s", lo, hi, where)
			}
		case x.s == "parsefloat.ok":
			if b, _ := x.args[1].smallInt(); b == 64 && st.facts.eval(x) == 1 {
				if yes, _ := s.counts(st, lit, pos, "."); yes {
					msg = "decimal literals are refused in an " + where
				}
			}
		}
		return msg != ""
	})
	if msg != "" {
		s.wrong(st, from, "C16", ruleRefused, where, msg, s.at(lp, st))
	}
}

// ---- leaving ----

func (s *parseSpec) leave(lp *autoRun, from *astate, x exit) []exit {
	if s.p.a.slots[lp.id] == "" {
		return []exit{x}
	}
	var res []exit
	trySplit(x.st, 0, func(st *State) {
		if x.kind == "ret" {
			errs := false
			for _, v := range x.o.vals {
				if v != nil && (v.typ != nil && isErrSlice(v.typ) || v.op == "slice") && errStatus(st, v) == "some" {
					errs = true
				}
			}
			if !errs && st.ghosts["spec.q"] != nil {
				s.advance(lp, from, st, true)
				setSpec(st, "pos", tAddC(specPos(st, "pos"), 1))
			}
		}
		if _, list := s.stack(lp, st); list != nil {
			d := "some"
			if ask(st, mkEq0(mkLen(list))) {
				d = "none"
			}
			setSpec(st, "depth", mkStr(d))
		}
		y := x
		y.st = st
		y.o.st = st
		res = append(res, y)
	})
	return res
}

// judge looks at what Parse returns.
func (s *parseSpec) judge(o outcome) {
	st := o.st
	if len(o.vals) != 2 || errStatus(st, o.vals[1]) != "none" {
		return
	}
	pos := s.w.where(o.pos, o.fn)
	q := specGhost(st, "q")
	if q == "" {
		if k, ok := st.facts.sconst[s.p.in]; ok {
			s.meet("C19", ruleClosed, fmt.Sprintf("input %q", k))
			if k != "{}" {
				s.wrong(st, nil, "C19", ruleClosed, fmt.Sprintf("input %q", k), fmt.Sprintf("the input %q is accepted without being read", k), pos)
			}
			return
		}
		s.open("C19", ruleClosed, "success", "success without the parser's loop")
		return
	}
	const item = "success"
	s.meet("C19", ruleClosed, item)
	p := specPos(st, "pos")
	all := 0
	if p != nil {
		all = st.facts.eval(tLess(p, mkLen(s.p.in)))
	}
	switch {
	case q == "lost":
		s.open("C19", ruleClosed, item, "not followed to the end")
	case q == "err":
		// errors noted but not reported: C04
	case q == "bad":
		s.wrong(st, nil, "C19", ruleClosed, item, "a document whose brackets do not match, or that goes on after its end, is accepted", pos)
	case q == "in":
		s.wrong(st, nil, "C19", ruleClosed, item, "a document that ends inside a string is accepted", pos)
	case specGhost(st, "depth") == "some":
		s.wrong(st, nil, "C19", ruleClosed, item, "a document with containers that are not closed is accepted", pos)
	case specGhost(st, "depth") == "":
		s.open("C19", ruleClosed, item, "number of open containers not known")
	case specGhost(st, "ever") != "yes":
		s.open("C19", ruleClosed, item, "no container was opened")
	case all != -1:
		s.wrong(st, nil, "C19", ruleClosed, item, "a document is accepted although bytes of the input were not looked at", pos)
	}
}

// ---- progress ----

// zeroStep is a step after which the position is where it was.
type zeroStep struct {
	st      *State
	fresh   []*Term        // what the path found out beyond the state it started from
	vals    []bool         // the answers
	bounds  []*Term        // ranges it found out
	changed map[*Term]bool // values the step replaces by something the next state does not fix
}

func (s *parseSpec) edge(lp *autoRun, from, to *astate, st *State) {
	slot := s.p.a.slots[lp.id]
	if slot == "" {
		return
	}
	a, b := lp.slotValue(from.st, slot), lp.slotValue(st, slot)
	m := s.edges[lp.id]
	if m == nil {
		m = map[[2]int]*stepRec{}
		s.edges[lp.id] = m
	}
	k := [2]int{from.n, to.n}
	r := m[k]
	if r == nil {
		r = &stepRec{gains: map[string]bool{}}
		m[k] = r
	}
	r.from = from
	g := "unknown"
	if a != nil && b != nil {
		lo, hi := st.facts.rng(tSub(b, a))
		switch {
		case lo != nil && lo.Sign() > 0:
			g = "forward"
		case lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0:
			g = "none"
		case hi != nil && hi.Sign() < 0 && sure(st):
			g = "back"
		case hi != nil && hi.Sign() < 0 && st.ghosts[weakGhost] != nil:
			r.gains["perhaps back"] = true
		}
	}
	r.gains[g] = true
	if g != "none" || len(r.zero) >= 8 {
		return
	}
	z := &zeroStep{st: st.clone(), changed: map[*Term]bool{}}
	lp.each(st, func(name string, v *Term, t types.Type) {
		old := lp.slotValue(from.st, name)
		if v == old || name == slot {
			return
		}
		if v.op == "str" || v.op == "int" || v.op == "true" || v.op == "false" {
			if lp.slotValue(to.st, name) == v {
				return // part of the next state
			}
		}
		if old != nil {
			walk(old, func(x *Term) bool {
				if x.op == "sym" && !lp.stable[x] {
					z.changed[x] = true
				}
				return true
			})
		}
	})
	for t, v := range st.facts.truth {
		want := -1
		if v {
			want = 1
		}
		if from.st.facts.eval(t) != want {
			z.fresh, z.vals = append(z.fresh, t), append(z.vals, v)
		}
	}
	for t, bd := range st.facts.bounds {
		lo, hi := from.st.facts.rng(t)
		if bd.lo != nil && (lo == nil || bd.lo.Cmp(lo) > 0) || bd.hi != nil && (hi == nil || bd.hi.Cmp(hi) < 0) {
			z.bounds = append(z.bounds, t)
		}
	}
	r.zero = append(r.zero, z)
}

type stepRec struct {
	gains map[string]bool
	zero  []*zeroStep
	from  *astate
}

// stuck says whether the steps, taken round and round, never end: none of them moves the position, what one finds out
// fits what the others find out, and nothing found out depends on what any of them changes.
func stuck(zs []*zeroStep) bool {
	changed := map[*Term]bool{}
	for _, z := range zs {
		for t := range z.changed {
			changed[t] = true
		}
	}
	st := zs[0].st.clone()
	for i, z := range zs {
		for j, f := range z.fresh {
			if contains(f, func(x *Term) bool { return changed[x] }) {
				return false
			}
			if i > 0 && !st.facts.assume(f, z.vals[j]) {
				return false
			}
		}
		for _, b := range z.bounds {
			if contains(b, func(x *Term) bool { return changed[x] }) {
				return false
			}
		}
		if !sure(z.st) {
			return false
		}
	}
	return true
}

// progress decides whether the loops of the parser come to an end.
func (s *parseSpec) progress(r *Report) {
	var ids []string
	for id := range s.edges {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		m := s.edges[id]
		next := map[int][]int{}
		unknown := ""
		n := 0
		for k, e := range m {
			if e.gains["none"] {
				next[k[0]] = append(next[k[0]], k[1])
			}
			if e.gains["back"] {
				r.add(ruleProgress, s.names[id], "violation", "a step moves back in the input after the bytes "+e.from.trace(), s.where[id])
			}
			if e.gains["perhaps back"] {
				weakHit++
			}
			if e.gains["unknown"] && unknown == "" {
				unknown = e.from.trace()
			}
			n++
		}
		r.count("loop steps (state to state)", n)
		r.ok(ruleProgress, s.names[id])
		if unknown != "" {
			r.add(ruleProgress, s.names[id], "undecided", "how far a step moves is not known after "+unknown, "")
		}
		open := ""
		var path []int
		var visit func(n int) bool
		visit = func(n int) bool {
			for i, p := range path {
				if p != n {
					continue
				}
				cyc := append(append([]int{}, path[i:]...), n)
				from := m[[2]int{cyc[0], cyc[1]}].from
				open = from.trace()
				var pick func(i int, zs []*zeroStep) bool
				pick = func(i int, zs []*zeroStep) bool {
					if i == len(cyc)-1 {
						return stuck(zs)
					}
					for _, z := range m[[2]int{cyc[i], cyc[i+1]}].zero {
						if pick(i+1, append(zs, z)) {
							return true
						}
					}
					return false
				}
				if pick(0, nil) {
					r.add(ruleProgress, s.names[id], "violation", "the parser stays where it is for ever: after the bytes "+from.trace()+" a step leads back to the same state without consuming a byte", s.where[id])
					return true
				}
				return false
			}
			if len(path) > 3 {
				return false
			}
			path = append(path, n)
			for _, t := range next[n] {
				if visit(t) {
					return true
				}
			}
			path = path[:len(path)-1]
			return false
		}
		var starts []int
		for n := range next {
			sort.Ints(next[n])
			starts = append(starts, n)
		}
		sort.Ints(starts)
		found := false
		for _, n := range starts {
			path = nil
			if visit(n) {
				found = true
				break
			}
		}
		if !found && open != "" {
			r.add(ruleProgress, s.names[id], "undecided", "steps that consume nothing follow each other after "+open, "")
		}
	}
}
