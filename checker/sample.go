package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Two terms that are built from the same unknowns can be told apart by writing
// one instance of both out: values for the unknowns under which every condition
// of the path holds and the terms differ. Only a difference counts; terms that
// agree on all instances are not thereby equal.

type sampleEnv struct {
	val map[*Term]interface{} // string, *big.Int, bool, float64
}

func (v *sampleEnv) eval(t *Term) (interface{}, bool) {
	if x, ok := v.val[t]; ok {
		return x, true
	}
	str := func(k int) (string, bool) {
		if k >= len(t.args) {
			return "", false
		}
		x, ok := v.eval(t.args[k])
		s, is := x.(string)
		return s, ok && is
	}
	num := func(k int) (*big.Int, bool) {
		if k >= len(t.args) {
			return nil, false
		}
		x, ok := v.eval(t.args[k])
		n, is := x.(*big.Int)
		return n, ok && is
	}
	flo := func(k int) (float64, bool) {
		if k >= len(t.args) {
			return 0, false
		}
		x, ok := v.eval(t.args[k])
		n, is := x.(float64)
		return n, ok && is
	}
	b2 := func(f func(a, b string) interface{}) (interface{}, bool) {
		a, ok1 := str(0)
		b, ok2 := str(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		return f(a, b), true
	}
	b1 := func(f func(a string) interface{}) (interface{}, bool) {
		a, ok := str(0)
		if !ok {
			return nil, false
		}
		return f(a), true
	}
	switch t.op {
	case "str":
		return t.s, true
	case "int":
		return t.c, true
	case "true":
		return true, true
	case "false":
		return false, true
	case "float":
		f, err := strconv.ParseFloat(t.s, 64)
		return f, err == nil
	case "lin":
		l := toLin(t)
		r := new(big.Int).Set(l.c)
		for a, k := range l.m {
			x, ok := v.eval(a)
			n, is := x.(*big.Int)
			if !ok || !is {
				return nil, false
			}
			r.Add(r, new(big.Int).Mul(n, big.NewInt(k)))
		}
		return r, true
	case "wrap":
		n, ok := num(0)
		if !ok || t.typ == nil {
			return nil, false
		}
		return wrapConst(n, t.typ), true
	case "not":
		x, ok := v.eval(t.args[0])
		b, is := x.(bool)
		return !b, ok && is
	case "and":
		all := true
		for _, a := range t.args {
			x, ok := v.eval(a)
			b, is := x.(bool)
			if !ok || !is {
				return nil, false
			}
			all = all && b
		}
		return all, true
	case "eq":
		x, ok1 := v.eval(t.args[0])
		y, ok2 := v.eval(t.args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		return sameSample(x, y)
	case "lt0", "eq0":
		n, ok := num(0)
		if !ok {
			return nil, false
		}
		if t.op == "lt0" {
			return n.Sign() < 0, true
		}
		return n.Sign() == 0, true
	case "len":
		return b1(func(a string) interface{} { return big.NewInt(int64(len(a))) })
	case "byteat":
		s, ok := str(0)
		i, ok2 := num(1)
		if !ok || !ok2 || !i.IsInt64() || i.Sign() < 0 || i.Int64() >= int64(len(s)) {
			return nil, false
		}
		return big.NewInt(int64(s[i.Int64()])), true
	case "substr":
		s, ok := str(0)
		lo, ok2 := num(1)
		hi, ok3 := num(2)
		if !ok || !ok2 || !ok3 || lo.Sign() < 0 || lo.Cmp(hi) > 0 || hi.Cmp(big.NewInt(int64(len(s)))) > 0 {
			return nil, false
		}
		return s[lo.Int64():hi.Int64()], true
	case "cat":
		r := ""
		for k := range t.args {
			s, ok := str(k)
			if !ok {
				return nil, false
			}
			r += s
		}
		return r, true
	case "fn":
		switch t.s {
		case "trimspace":
			return b1(func(a string) interface{} { return strings.TrimSpace(a) })
		case "trim":
			return b2(func(a, b string) interface{} { return strings.Trim(a, b) })
		case "strings.ToLower":
			return b1(func(a string) interface{} { return strings.ToLower(a) })
		case "strings.ToUpper":
			return b1(func(a string) interface{} { return strings.ToUpper(a) })
		case "strings.ToTitle", "strings.Title":
			return b1(func(a string) interface{} { return strings.ToTitle(a) })
		case "strings.EqualFold":
			return b2(func(a, b string) interface{} { return strings.EqualFold(a, b) })
		case "strings.TrimLeft":
			return b2(func(a, b string) interface{} { return strings.TrimLeft(a, b) })
		case "strings.TrimRight":
			return b2(func(a, b string) interface{} { return strings.TrimRight(a, b) })
		case "strings.Compare":
			return b2(func(a, b string) interface{} { return big.NewInt(int64(strings.Compare(a, b))) })
		case "strings.Repeat":
			s, ok := str(0)
			n, ok2 := num(1)
			if !ok || !ok2 || n.Sign() < 0 || n.Cmp(big.NewInt(100)) > 0 {
				return nil, false
			}
			return strings.Repeat(s, int(n.Int64())), true
		case "contains":
			return b2(func(a, b string) interface{} { return strings.Contains(a, b) })
		case "hasprefix":
			return b2(func(a, b string) interface{} { return strings.HasPrefix(a, b) })
		case "hassuffix":
			return b2(func(a, b string) interface{} { return strings.HasSuffix(a, b) })
		case "count":
			return b2(func(a, b string) interface{} { return big.NewInt(int64(strings.Count(a, b))) })
		case "replaceall":
			a, ok1 := str(0)
			b, ok2 := str(1)
			c, ok3 := str(2)
			return strings.ReplaceAll(a, b, c), ok1 && ok2 && ok3
		case "nilword":
			return b1(func(a string) interface{} { return nilWords[a] })
		case "isint":
			return b1(func(a string) interface{} { _, e := strconv.ParseInt(a, 10, 64); return e == nil })
		case "parsefloat.ok", "parsefloat":
			s, ok := str(0)
			bits, ok2 := num(1)
			if !ok || !ok2 {
				return nil, false
			}
			f, err := strconv.ParseFloat(s, int(bits.Int64()))
			if t.s == "parsefloat" {
				return f, err == nil
			}
			return err == nil, true
		case "parsebool.ok", "parsebool":
			s, ok := str(0)
			if !ok {
				return nil, false
			}
			b, err := strconv.ParseBool(s)
			if t.s == "parsebool" {
				return b, err == nil
			}
			return err == nil, true
		case "dec":
			n, ok := num(0)
			if !ok {
				return nil, false
			}
			return n.String(), true
		case "booltext":
			x, ok := v.eval(t.args[0])
			b, is := x.(bool)
			return strconv.FormatBool(b), ok && is
		case "tofloat64", "tofloat32":
			x, ok := v.eval(t.args[0])
			if !ok {
				return nil, false
			}
			var f float64
			switch n := x.(type) {
			case *big.Int:
				f, _ = new(big.Float).SetInt(n).Float64()
				if t.s == "tofloat32" {
					g, _ := new(big.Float).SetInt(n).Float32()
					f = float64(g)
				}
			case float64:
				f = n
				if t.s == "tofloat32" {
					f = float64(float32(n))
				}
			default:
				return nil, false
			}
			return f, true
		case "neg":
			f, ok := flo(0)
			return -f, ok
		case "isnan":
			f, ok := flo(0)
			return math.IsNaN(f), ok
		case "isposinf":
			f, ok := flo(0)
			return math.IsInf(f, 1), ok
		case "isneginf":
			f, ok := flo(0)
			return math.IsInf(f, -1), ok
		case "add", "sub", "mul", "less", "leq":
			a, ok1 := flo(0)
			b, ok2 := flo(1)
			if !ok1 || !ok2 {
				return nil, false
			}
			switch t.s {
			case "add":
				return a + b, true
			case "sub":
				return a - b, true
			case "mul":
				return a * b, true
			case "less":
				return a < b, true
			}
			return a <= b, true
		case "ftoi":
			f, ok := flo(0)
			if !ok || math.Abs(f) > 1<<53 || t.typ == nil {
				return nil, false
			}
			n, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
			lo, hi := intRange(t.typ)
			if lo == nil || n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
				return nil, false
			}
			return n, true
		case "math.Trunc", "math.Floor", "math.Ceil", "math.Round", "math.Abs":
			f, ok := flo(0)
			if !ok {
				return nil, false
			}
			return map[string]func(float64) float64{"math.Trunc": math.Trunc, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Round": math.Round, "math.Abs": math.Abs}[t.s](f), true
		}
		if strings.HasPrefix(t.s, "sprint%") && len(t.args) == 1 {
			a := t.args[0]
			if a.op == "iface" {
				a = a.args[0]
			}
			x, ok := v.eval(a)
			if !ok {
				return nil, false
			}
			verb := t.s[len("sprint"):]
			switch n := x.(type) {
			case float64, string, bool:
				return fmt.Sprintf(verb, n), true
			case *big.Int:
				if n.IsInt64() {
					return fmt.Sprintf(verb, n.Int64()), true
				}
			}
		}
	}
	return nil, false
}

func sameSample(x, y interface{}) (interface{}, bool) {
	switch a := x.(type) {
	case string:
		b, ok := y.(string)
		return a == b, ok
	case bool:
		b, ok := y.(bool)
		return a == b, ok
	case float64:
		b, ok := y.(float64)
		return a == b, ok
	case *big.Int:
		b, ok := y.(*big.Int)
		return ok && a.Cmp(b) == 0, ok
	}
	return nil, false
}

var sampleTexts = []string{"", "a", "A", " ", "a ", " a", "aa", "b", "0", "1", "-1", "true", "TRUE", "false", "yes", "no", "on", "off", "nil", "null", "1.5", "0.1", "16777217", "123456789.123456789", "1e3", "1e300", "1e999", "007", "+1", "é", "\"", "\\", "\n", "a\"b"}

func sampleValues(t types.Type) []interface{} {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	var r []interface{}
	switch {
	case b.Info()&types.IsString != 0:
		for _, s := range sampleTexts {
			r = append(r, s)
		}
	case b.Info()&types.IsBoolean != 0:
		return []interface{}{false, true}
	case b.Info()&types.IsInteger != 0:
		lo, hi := intRange(t)
		for _, s := range []string{"0", "1", "-1", "2", "5", "10", "32", "48", "57", "65", "97", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "16777217", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615"} {
			n, _ := new(big.Int).SetString(s, 10)
			if lo != nil && n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
				r = append(r, n)
			}
		}
	case b.Info()&types.IsFloat != 0:
		for _, f := range []float64{0, 1, -1, 0.5, -2.5, 100000, 16777216, 1 << 40} {
			r = append(r, f)
		}
		if b.Kind() == types.Float64 {
			r = append(r, 0.1, 1e300, 16777217.0)
		}
	}
	return r
}

// leaves are the unknowns of a term: the largest parts the evaluator cannot look into.
func leaves(t *Term, into map[*Term]bool) bool {
	switch t.op {
	case "str", "int", "true", "false", "float":
		return true
	case "sym", "deref", "elem", "sel", "load":
		ty := termType(t)
		if ty == nil || len(sampleValues(ty)) == 0 {
			return false
		}
		into[t] = true
		return true
	case "lin", "wrap", "not", "and", "eq", "lt0", "eq0", "len", "byteat", "substr", "cat", "fn", "iface":
		for _, a := range t.args {
			if !leaves(a, into) {
				return false
			}
		}
		return true
	}
	return false
}

// refute finds an instance under which got and want differ and every condition of the path holds.
func refute(st *State, got, want *Term) (string, bool) {
	set := map[*Term]bool{}
	if !leaves(got, set) || !leaves(want, set) || len(set) == 0 || len(set) > 3 {
		return "", false
	}
	var ls []*Term
	for l := range set {
		if givenUp(l.s) {
			return "", false
		}
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	mentions := func(t *Term) bool {
		for _, l := range ls {
			if t == l || t.contains(l) {
				return true
			}
		}
		return false
	}
	var truths []*Term
	for _, t := range st.facts.sortedTruth() {
		if mentions(t) {
			truths = append(truths, t)
		}
	}
	var bounds []*Term
	for _, t := range st.facts.sortedBounds() {
		if mentions(t) {
			bounds = append(bounds, t)
		}
	}
	for u := range st.facts.univ {
		if mentions(u) {
			return "", false
		}
	}
	env := &sampleEnv{val: map[*Term]interface{}{}}
	holds := func() bool {
		for _, t := range truths {
			x, ok := env.eval(t)
			b, is := x.(bool)
			if !ok || !is || b != st.facts.truth[t] {
				return false
			}
		}
		for _, t := range bounds {
			x, ok := env.eval(t)
			n, is := x.(*big.Int)
			if !ok || !is {
				return false
			}
			iv := st.facts.bounds[t]
			if iv.lo != nil && n.Cmp(iv.lo) < 0 || iv.hi != nil && n.Cmp(iv.hi) > 0 {
				return false
			}
		}
		for t, k := range st.facts.sconst {
			if !mentions(t) {
				continue
			}
			if x, ok := env.eval(t); !ok || x != interface{}(k) {
				return false
			}
		}
		return true
	}
	var try func(i int) (string, bool)
	try = func(i int) (string, bool) {
		if i == len(ls) {
			if !holds() {
				return "", false
			}
			a, ok1 := env.eval(got)
			b, ok2 := env.eval(want)
			if !ok1 || !ok2 {
				return "", false
			}
			if same, ok := sameSample(a, b); !ok || same.(bool) {
				return "", false
			}
			var ws []string
			for _, l := range ls {
				ws = append(ws, fmt.Sprintf("%s = %s", short(l), showSample(env.val[l])))
			}
			return fmt.Sprintf("%s instead of %s when %s", showSample(a), showSample(b), strings.Join(ws, ", ")), true
		}
		vs := sampleValues(termType(ls[i]))
		if k, ok := st.facts.sconst[ls[i]]; ok {
			vs = []interface{}{k}
		}
		for _, x := range vs {
			env.val[ls[i]] = x
			if w, ok := try(i + 1); ok {
				return w, true
			}
		}
		delete(env.val, ls[i])
		return "", false
	}
	return try(0)
}

func showSample(x interface{}) string {
	switch s := x.(type) {
	case string:
		return strconv.Quote(s)
	case *big.Int:
		return s.String()
	}
	return fmt.Sprint(x)
}
