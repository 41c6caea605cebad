package props

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// pwriter writes sentences of the pcore notation and keeps track of what they mean
type pwriter struct {
	writer
}

func newPwriter(t *rapid.T) *pwriter { return &pwriter{writer{t: t, alias: map[string]*T{}}} }

func (w *pwriter) pick(n int, what string) int { return rapid.IntRange(0, n-1).Draw(w.t, what) }

func (w *pwriter) str(s string) string {
	if pcoreIdent.MatchString(s) && s != "true" && s != "false" && s != "undef" && s != "type" && w.chance(1, "bare") {
		return s
	}
	return w.quoted(s, rapid.SampledFrom([]rune{'"', '\''}).Draw(w.t, "quote"))
}

var pcoreIdent = regexp.MustCompile(`\A[a-z][A-Za-z0-9_]*(::[a-z_][A-Za-z0-9_]*)*\z`)

// args writes the arguments, each is a function that writes one
func (w *pwriter) args(open, close string, as []func()) {
	w.emit(open)
	for i, a := range as {
		if i > 0 {
			w.emit(",")
		}
		a()
	}
	w.trailing(len(as))
	w.emit(close)
}

func (w *pwriter) lit(s string) func() { return func() { w.emit(s) } }

func (w *pwriter) intOr(i, dflt int64) func() {
	if i == dflt && w.chance(1, "default") {
		return w.lit("default")
	}
	return w.lit(w.intTok(i))
}

func (w *pwriter) rx(s string) string { return "/" + strings.ReplaceAll(s, "/", `\/`) + "/" }

// sizes gives the arguments for a size
func (w *pwriter) sizes() (min, max int64, as []func()) {
	min, max = drawSize(w.t)
	as = []func(){w.intOr(min, 0)}
	if max != unbounded || w.chance(1, "explicitMax") {
		as = append(as, w.intOr(max, unbounded))
	}
	return
}

// late gives an argument which writes a type, and the place where that type will be found once it has been written
func (w *pwriter) late(depth int, to **T) func() { return func() { *to = w.typ(depth) } }

// typ writes a type and returns what it means
func (w *pwriter) typ(depth int) *T {
	if len(w.names) > 0 && w.chance(5, "ref") {
		n := rapid.SampledFrom(w.names).Draw(w.t, "name")
		w.emit(n)
		return w.alias[n]
	}
	if depth > 1 && w.chance(11, "declare") {
		n := rapid.SampledFrom([]string{"A%d", "Foo::Bar%d", "MyType_%d", "Integer%d", "A%d::B::C"}).Draw(w.t, "name")
		n = fmt.Sprintf(n, w.count)
		w.count++
		w.emit("type", n, "=")
		tt := w.typ(depth - 1)
		w.names = append(w.names, n)
		w.alias[n] = tt
		return tt
	}
	n := 24
	if depth <= 1 {
		n = 15
	}
	switch w.pick(n, "form") {
	case 0:
		w.emit("Any")
		return tk(tAny)
	case 1:
		w.emit("Undef")
		return tk(tNil)
	case 2:
		switch w.pick(3, "bool") {
		case 0:
			w.emit("True")
			return tExactOf(vBool(true))
		case 1:
			w.emit("False")
			return tExactOf(vBool(false))
		}
		w.emit("Boolean")
		return tk(tBool)
	case 3:
		w.emit("Timestamp")
		return tk(tTime)
	case 4, 5:
		w.emit("Integer")
		if w.chance(3, "plain") {
			return tk(tInt)
		}
		r := drawTK(w.t, tIntRange, tOpts{depth: 1})
		r.Incl = true
		if w.chance(4, "openMin") {
			r.Min = math.MinInt64
		}
		as := []func(){w.intOr(r.Min, math.MinInt64)}
		if w.chance(3, "openMax") {
			r.Max = math.MaxInt64
		}
		if r.Max != math.MaxInt64 || w.chance(1, "explicitMax") {
			as = append(as, w.intOr(r.Max, math.MaxInt64))
		}
		w.args("[", "]", as)
		return r
	case 6, 7:
		w.emit("Float")
		if w.chance(3, "plain") {
			return tk(tFloat)
		}
		r, as := w.floats()
		w.args("[", "]", as)
		return r
	case 8:
		w.emit("Number")
		if w.chance(3, "plain") {
			return &T{K: tAnyOf, E: []*T{tk(tInt), tk(tFloat)}}
		}
		return w.number()
	case 9:
		w.emit("String")
		switch w.pick(4, "string") {
		case 0:
			return tk(tString)
		case 1:
			s := genStr(true).Draw(w.t, "s")
			w.args("[", "]", []func(){w.lit(w.str(s))})
			return tExactOf(vStr(s))
		}
		r := &T{K: tStringSized}
		r.Min, r.Max = drawSize(w.t)
		as := []func(){w.lit(w.intTok(r.Min))}
		if r.Max != unbounded || w.chance(1, "explicitMax") {
			as = append(as, w.lit(w.intTok(r.Max)))
		}
		w.args("[", "]", as)
		return r
	case 10:
		w.emit("Enum")
		ss := rapid.SliceOfN(genStr(true), 1, 4).Draw(w.t, "enum")
		ci := w.chance(2, "ci")
		r := &T{K: tAnyOf}
		var as []func()
		for _, s := range ss {
			as = append(as, w.lit(w.str(s)))
			if ci {
				r.E = append(r.E, &T{K: tCi, S: s})
			} else {
				r.E = append(r.E, tExactOf(vStr(s)))
			}
		}
		if ci {
			as = append(as, w.lit("true"))
		} else if w.chance(2, "notCi") {
			as = append(as, w.lit("false"))
		}
		w.args("[", "]", as)
		if len(r.E) == 1 {
			return r.E[0]
		}
		return r
	case 11:
		w.emit("Pattern")
		r := &T{K: tAnyOf}
		var as []func()
		for n := w.pick(6, "n"); n >= 0; n-- {
			s := w.pattern()
			r.E = append(r.E, &T{K: tPattern, S: s})
			as = append(as, w.lit(w.patternTok(s)))
		}
		w.args("[", "]", as)
		if len(r.E) == 1 {
			return r.E[0]
		}
		return r
	case 12:
		w.emit("Regexp")
		if w.chance(2, "plain") {
			return tk(tRegexp)
		}
		s := w.pattern()
		w.args("[", "]", []func(){w.lit(w.patternTok(s))})
		return tExactOf(&V{K: kRegexp, S: s})
	case 13:
		w.emit("Binary")
		if w.chance(2, "plain") {
			return tk(tBinary)
		}
		r := &T{K: tBinarySized}
		var as []func()
		r.Min, r.Max, as = w.sizes()
		w.args("[", "]", as)
		return r
	case 14:
		w.emit("Sensitive")
		if depth <= 1 {
			return &T{K: tSensitive}
		}
		r := &T{K: tSensitive, E: []*T{nil}}
		w.args("[", "]", []func(){w.late(depth-1, &r.E[0])})
		return r
	case 15, 16:
		w.emit("Array")
		r := tArr(tk(tAny), 0, unbounded)
		var as, sz []func()
		if w.chance(3, "element") || w.chance(2, "element") {
			as = append(as, w.late(depth-1, &r.E[0]))
			if w.chance(1, "sized") {
				r.Min, r.Max, sz = w.sizes()
			}
		} else {
			r.Min, r.Max, sz = w.sizes()
		}
		w.args("[", "]", append(as, sz...))
		return r
	case 17, 18:
		w.emit("Hash")
		r := &T{K: tMap, E: []*T{tk(tAny), tk(tAny)}, Max: unbounded}
		var as, sz []func()
		if w.chance(3, "types") || w.chance(2, "types") {
			as = append(as, w.late(1, &r.E[0]), w.late(depth-1, &r.E[1]))
			if w.chance(1, "sized") {
				r.Min, r.Max, sz = w.sizes()
			}
		} else {
			r.Min, r.Max, sz = w.sizes()
		}
		w.args("[", "]", append(as, sz...))
		return r
	case 19:
		w.emit("Tuple")
		r := &T{K: tTuple}
		as := w.many(depth-1, 1, 3, r)
		w.tuple(r, as)
		return r
	case 20:
		w.emit("Struct")
		r := &T{K: tStruct}
		keys := uniqueStrings(rapid.SliceOfN(genStr(true), 0, 3).Draw(w.t, "keys"))
		r.E = make([]*T, len(keys))
		var as []func()
		for i, k := range keys {
			i, k := i, k
			r.Keys = append(r.Keys, vStr(k))
			r.Req = append(r.Req, rapid.Bool().Draw(w.t, "required"))
			as = append(as, func() {
				if r.Req[i] {
					w.emit(w.str(k))
				} else {
					w.emit("Optional", "[", w.str(k), "]")
				}
				w.emit("=>")
				r.E[i] = w.typ(depth - 1)
			})
		}
		if len(keys) > 0 && w.chance(1, "noBraces") {
			w.args("[", "]", as)
		} else {
			w.emit("[")
			w.args("{", "}", as)
			w.emit("]")
		}
		return r
	case 21:
		var e *T
		opt := w.chance(1, "optional")
		if opt {
			w.emit("Optional")
			if w.chance(4, "string") {
				s := genStr(true).Draw(w.t, "s")
				w.args("[", "]", []func(){w.lit(w.str(s))})
				return &T{K: tAnyOf, E: []*T{tk(tNil), tExactOf(vStr(s))}}
			}
		} else {
			w.emit("NotUndef")
			if w.chance(4, "plain") {
				return &T{K: tNot, E: []*T{tk(tNil)}}
			}
		}
		w.args("[", "]", []func(){w.late(depth-1, &e)})
		switch {
		case opt && member(e, vNil()):
			return e
		case opt:
			return &T{K: tAnyOf, E: []*T{tk(tNil), e}}
		case e.K == tAny:
			return &T{K: tNot, E: []*T{tk(tNil)}}
		case member(e, vNil()):
			return &T{K: tAllOf, E: []*T{{K: tNot, E: []*T{tk(tNil)}}, e}}
		}
		return e
	case 22:
		if w.chance(3, "meta") {
			w.emit("Type")
			r := &T{K: tMeta, E: []*T{nil}}
			w.args("[", "]", []func(){w.late(depth-1, &r.E[0])})
			return r
		}
		w.emit("Variant")
		r := &T{K: tAnyOf}
		w.args("[", "]", w.many(depth-1, 1, 3, r))
		if len(r.E) == 1 {
			return r.E[0]
		}
		return r
	default:
		w.emit("Callable")
		r := &T{K: tFunc}
		tup := &T{K: tTuple}
		ret := w.chance(1, "return")
		if ret {
			w.emit("[")
		}
		as := w.many(depth-1, 0, 3, tup)
		sized := false
		if len(as) == 0 {
			w.args("[", "]", nil)
		} else {
			sized = w.tuple(tup, as)
		}
		if ret {
			r.R = []*T{nil}
			w.emit(",")
			r.R[0] = w.typ(depth - 1)
			w.trailing(1)
			w.emit("]")
		}
		r.E, r.Add = tup.E, tup.K == tVarTuple
		if n := len(r.E); n > 1 && !sized && r.E[n-1].K == tFunc {
			// a block, which is the first parameter in dgo
			r.E = append([]*T{r.E[n-1]}, r.E[:n-1]...)
		}
		return r
	}
}

func uniqueStrings(ss []string) (us []string) {
	for _, s := range ss {
		if indexOfStr(us, s) < 0 {
			us = append(us, s)
		}
	}
	return
}

// many gives between min and max arguments that will write the elements of the type
func (w *pwriter) many(depth, min, max int, r *T) (as []func()) {
	n := rapid.IntRange(min, max).Draw(w.t, "n")
	r.E = make([]*T, n)
	for i := range r.E {
		as = append(as, w.late(depth, &r.E[i]))
	}
	return
}

// tuple writes the arguments of a tuple, with or without size
func (w *pwriter) tuple(r *T, as []func()) (sized bool) {
	n := int64(len(as))
	defer func() { sized = int64(len(as)) > n }()
	switch w.pick(6, "tuple") {
	case 3:
		// as many as given, or more, of the last one
		r.K = tVarTuple
		k := n - 1
		if w.chance(1, "more") {
			k = n + int64(w.pick(4, "k")) + 1
		}
		as = append(as, w.lit(w.intTok(k)), w.lit(w.intTok(k)))
	case 0:
		r.K = tVarTuple
		as = append(as, w.lit(w.intTok(n-1)), w.lit("default"))
	case 1:
		r.K = tVarTuple
		as = append(as, w.lit(w.intTok(n-1)))
	case 2:
		as = append(as, w.lit(w.intTok(n)), w.lit(w.intTok(n)))
	}
	w.args("[", "]", as)
	return
}

func (w *pwriter) pattern() string {
	return rapid.SampledFrom(rxPool).Filter(func(s string) bool { return !strings.ContainsAny(s, "\n\x00") && !strings.Contains(s, `\/`) }).Draw(w.t, "rx")
}

func (w *pwriter) patternTok(s string) string {
	if w.chance(1, "asString") {
		return w.str(s)
	}
	return w.rx(s)
}

func (w *pwriter) floats() (*T, []func()) {
	r := drawTK(w.t, tFloatRange, tOpts{depth: 1})
	r.Incl = true
	if w.chance(4, "openMin") {
		r.FMin = -math.MaxFloat64
	}
	if w.chance(3, "openMax") {
		r.FMax = math.MaxFloat64
	}
	as := []func(){w.floatArg(r.FMin, -math.MaxFloat64)}
	if r.FMax != math.MaxFloat64 || w.chance(1, "explicitMax") {
		as = append(as, w.floatArg(r.FMax, math.MaxFloat64))
	}
	return r, as
}

func (w *pwriter) floatArg(f, dflt float64) func() {
	switch {
	case f == dflt && w.chance(1, "default"):
		return w.lit("default")
	case f == math.Trunc(f) && math.Abs(f) < 1<<53 && w.chance(1, "asInt"):
		return w.lit(w.intTok(int64(f)))
	}
	return w.lit(w.floatTok(f))
}

// number writes the arguments of a Number. Its integers are those i for which lo <= i <= hi
func (w *pwriter) number() *T {
	i, f := w.floatsOrInts()
	if i == nil {
		return f
	}
	return &T{K: tAnyOf, E: []*T{i, f}}
}

func (w *pwriter) floatsOrInts() (*T, *T) {
	if w.chance(1, "ints") {
		r := drawTK(w.t, tIntRange, tOpts{depth: 1})
		r.Incl = true
		f := &T{K: tFloatRange, FMin: float64(r.Min), FMax: float64(r.Max), Incl: true}
		w.args("[", "]", []func(){w.lit(w.intTok(r.Min)), w.lit(w.intTok(r.Max))})
		return r, f
	}
	f, as := w.floats()
	w.args("[", "]", as)
	lo, hi := math.Ceil(f.FMin), math.Floor(f.FMax)
	if lo > hi || lo >= 1<<63 || hi < -1<<63 {
		return nil, f
	}
	r := tIR(math.MinInt64, math.MaxInt64, true)
	if lo > -1<<63 {
		r.Min = int64(lo)
	}
	if hi < 1<<63 {
		r.Max = int64(hi)
	}
	return r, f
}

// value writes a value
func (w *pwriter) value(v *V) {
	switch v.K {
	case kNil:
		w.emit("undef")
	case kString:
		w.emit(w.str(v.S))
	case kRegexp:
		w.emit(w.rx(v.S))
	case kArray:
		entries := false
		var as []func()
		for _, e := range v.A {
			e := e
			if e.K == kMap && len(e.MK) > 0 && !entries && w.chance(1, "entries") {
				entries = true
				for i := range e.MK {
					i := i
					as = append(as, func() { w.entry(e, i) })
				}
				continue
			}
			entries = false
			as = append(as, func() { w.value(e) })
		}
		w.args("[", "]", as)
	case kMap:
		var as []func()
		for i := range v.MK {
			i := i
			as = append(as, func() { w.entry(v, i) })
		}
		w.args("{", "}", as)
	default:
		w.writer.value(v)
	}
}

func (w *pwriter) entry(v *V, i int) {
	w.value(v.MK[i])
	w.emit("=>")
	w.value(v.MV[i])
}

// text joins the tokens with white space and comments
func (w *pwriter) text() string {
	sb := &strings.Builder{}
	ws := func(min int) {
		if w.chance(3, "space") {
			min++
		}
		for ; min > 0; min-- {
			sb.WriteString(rapid.SampledFrom([]string{" ", " ", "\t", "\n", "#\n", "# type 'x\n", " # [é,\n\n", "# a # b # c\n", "#\r#\n"}).Draw(w.t, "ws"))
		}
	}
	ws(0)
	for i, tok := range w.toks {
		if i > 0 {
			prev := w.toks[i-1]
			if identEnd(prev[len(prev)-1]) && identEnd(tok[0]) || strings.HasSuffix(prev, "=") && tok[0] == '>' {
				ws(1)
			} else {
				ws(0)
			}
		}
		sb.WriteString(tok)
	}
	ws(0)
	if w.chance(9, "lastComment") {
		sb.WriteString("# the end")
	}
	return sb.String()
}

func parsePcore(s string) (v dgo.Value, am dgo.AliasMap, p *caught) {
	p = catch(func() {
		am = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = pcore.ParseFile(aa, "", s) })
	})
	return
}

func dgoName(n string) string {
	ns := strings.Split(n, "::")
	for i, s := range ns {
		ns[i] = strings.ToLower(s[:1]) + s[1:]
	}
	return strings.Join(ns, ".")
}

func TestP26_Types(t *testing.T) {
	prop(t, 12000, "a type in pcore notation and what it means; non-trivial for sentences of at least 6 tokens", func(c *C) {
		w := newPwriter(c.T)
		a := w.typ(rapid.IntRange(1, 4).Draw(c.T, "depth"))
		s := w.text()
		c.Doing("%q", s)
		v, am, p := parsePcore(s)
		if p != nil {
			c.Fatalf("%q, which describes %s, is rejected: %s", s, a.str(), p)
		}
		ty, ok := v.(dgo.Type)
		want := a.build()
		if !ok || !ty.Equals(want) || !want.Equals(ty) || ty.HashCode() != want.HashCode() {
			c.Fatalf("%q, which describes %s, parses to %s (%T)", s, want, v, v)
		}
		if dt := pcore.Dialect().ParseType(nil, vf.String(s)); !dt.Equals(want) {
			c.Fatalf("%q, which describes %s, is the type %s to the dialect", s, want, dt)
		}
		if len(w.names) > 0 && tf.DefaultAliases().GetType(vf.String(dgoName(w.names[0]))) != nil {
			c.Fatalf("%q: the alias became a default alias", s)
		}
		for i := 0; i < 3; i++ {
			if m := drawCandidate(c.T, a); m != nil {
				mv := build(m, fixedRoute)
				exp := want.Instance(mv)
				if !a.hasKind(tMeta, tFunc) {
					exp = member(a, m)
				}
				if ty.Instance(mv) != exp {
					c.Fatalf("%q: %s is an instance: %v", s, m.str(), !exp)
				}
			}
		}
		for _, n := range w.names {
			want := w.alias[n].build()
			if at := am.GetType(vf.String(dgoName(n))); at == nil || !at.Equals(want) || !want.Equals(at) {
				c.Fatalf("%q: the alias %s is %v and not %s", s, n, at, want)
			}
		}
		if len(w.names) > 0 {
			c.Class("with aliases")
		}
		if len(w.toks) >= 6 {
			c.NonTrivial(s)
		}
	})
}

func TestP26_Values(t *testing.T) {
	prop(t, 8000, "data in pcore notation; non-trivial for collections", func(c *C) {
		v := drawV(c.T, vOpts{kinds: append([]K{kRegexp}, dataKinds...), keys: []K{kString, kString, kInt, kBool, kFloat, kNil, kArray}, depth: 4, width: 3, wideStr: true})
		if inexpressible(tExactOf(v)) || v.has(func(x *V) bool { return x.K == kRegexp && strings.ContainsAny(x.S, "\n\x00/") }) {
			c.Class("no text form")
			return
		}
		w := newPwriter(c.T)
		if v.K == kMap && len(v.MK) == 1 && w.chance(1, "top") {
			w.entry(v, 0)
		} else {
			w.value(v)
		}
		s := w.text()
		got, _, p := parsePcore(s)
		if p != nil {
			c.Fatalf("%q, which describes %s, is rejected: %s", s, v.str(), p)
		}
		if !refEq(model(got), v) || !sameOrdered(model(got), v) || !got.Equals(build(v, fixedRoute)) {
			c.Fatalf("%q, which describes %s, parses to %s", s, v.str(), got)
		}
		if v.K == kArray || v.K == kMap {
			c.NonTrivial(s)
		}
	})
}

func TestP26_Calls(t *testing.T) {
	prop(t, 6000, "a call to a constructor inside of other data; non-trivial when the call is nested", func(c *C) {
		w := newPwriter(c.T)
		depth := rapid.IntRange(0, 3).Draw(c.T, "depth")
		forms := make([]int, depth)
		for i := range forms {
			if i > 0 && forms[i-1] >= 4 {
				// a type can only contain calls and types
				forms[i] = rapid.SampledFrom([]int{2, 4, 5, 6, 7, 8, 9}).Draw(c.T, "nest")
			} else {
				forms[i] = w.pick(10, "nest")
			}
			switch forms[i] {
			case 3:
				w.emit("{")
			case 4:
				w.emit("Array", "[")
			case 5:
				w.emit("Optional", "[")
			case 6:
				w.emit("Variant", "[", "Float", "[", "1.5", ",", "2.5", "]", ",")
			case 7:
				w.emit("Hash", "[", "String", ",")
			case 8:
				w.emit("Sensitive", "[")
			case 9:
				w.emit("Tuple", "[", "String", ",")
			case 0:
				w.emit("[", "1", ",")
			case 1:
				w.emit("{", "k", "=>")
			case 2:
				w.emit("Sensitive", "(")
			}
		}
		i := genInt().Draw(c.T, "i")
		var want dgo.Value
		switch w.pick(7, "call") {
		case 0:
			radix := rapid.SampledFrom([]int{2, 8, 10, 16}).Draw(c.T, "radix")
			w.emit("Integer", "(", w.quoted(strconv.FormatInt(i, radix), '\''), ",", strconv.Itoa(radix), ")")
			want = vf.Integer(i)
		case 1:
			f := genFloat().Draw(c.T, "f")
			w.emit("Float", "(", w.quoted(strconv.FormatFloat(f, 'g', -1, 64), '"'), ")")
			want = vf.Float(f)
		case 2:
			w.emit("String", "(", w.intTok(i), ")")
			want = vf.String(strconv.FormatInt(i, 10))
		case 3:
			s := genStr(true).Draw(c.T, "s")
			w.emit("Sensitive", "(", w.str(s), ")")
			want = vf.Sensitive(s)
		case 4:
			b := vf.Binary(genBytes().Draw(c.T, "b"), true)
			w.emit("Binary", "(", w.quoted(b.String(), '"'), ")")
			want = vf.New(typ.Binary, vf.String(b.String()))
		case 5:
			tm := time.Unix(i%1e10, 0).UTC()
			w.emit("Timestamp", "(", w.quoted(tm.Format(time.RFC3339), '"'), ")")
			want = vf.Time(tm)
			if tm.Year() < 0 || tm.Year() > 9999 {
				c.Class("no text form")
				return
			}
		case 6:
			b := i%2 == 0
			w.emit("Boolean", "(", w.quoted(strconv.FormatBool(b), '"'), ")")
			want = vf.Boolean(b)
		}
		for i := len(forms) - 1; i >= 0; i-- {
			ty, ok := want.(dgo.Type)
			if !ok {
				ty = want.Type()
			}
			if forms[i] >= 4 {
				w.emit("]")
			}
			switch forms[i] {
			case 3:
				w.emit("=>", "1", "}")
				want = vf.Map(want, 1)
			case 4:
				want = tf.Array(ty)
			case 5:
				if want = ty; !ty.Instance(nil) {
					want = tf.AnyOf(typ.Nil, ty)
				}
			case 6:
				want = tf.AnyOf(tf.Float(1.5, 2.5, true), ty)
			case 7:
				want = tf.Map(typ.String, ty)
			case 8:
				want = tf.Sensitive(ty)
			case 9:
				want = tf.Tuple(typ.String, ty)
			case 0:
				w.emit("]")
				want = vf.Values(1, want)
			case 1:
				w.emit("}")
				want = vf.Map("k", want)
			case 2:
				w.emit(")")
				if _, ok := want.(dgo.Sensitive); !ok { // which already is what is asked for
					want = vf.Sensitive(want)
				}
			}
		}
		s := w.text()
		got, _, p := parsePcore(s)
		if p != nil {
			c.Fatalf("%q, which describes %s, is rejected: %s", s, want, p)
		}
		if !got.Equals(want) || !want.Equals(got) {
			c.Fatalf("%q, which describes %s, parses to %s (%T)", s, want, got, got)
		}
		if depth > 0 {
			c.NonTrivial(s)
		}
	})
}

// pcoreForms are self-referencing declarations, in pcore notation and as functions from the self-reference and an integer
// range
var pcoreForms = []struct {
	text string
	body func(s, r *T) *T
}{
	{"Array[R]", func(s, r *T) *T { return tArr(r, 0, unbounded) }},
	{"Variant[S,Array[R]]", func(s, r *T) *T { return &T{K: tAnyOf, E: []*T{s, tArr(r, 0, unbounded)}} }},
	{"Hash[String,Variant[S,R]]", func(s, r *T) *T { return &T{K: tMap, E: []*T{tk(tString), {K: tAnyOf, E: []*T{s, r}}}, Max: unbounded} }},
	{"Tuple[S,Optional[R]]", func(s, r *T) *T { return &T{K: tTuple, E: []*T{s, {K: tAnyOf, E: []*T{tk(tNil), r}}}} }},
	{"Struct[{v=>S,Optional[n]=>R}]", func(s, r *T) *T {
		return &T{K: tStruct, Keys: []*V{vStr("v"), vStr("n")}, E: []*T{s, r}, Req: []bool{true, false}}
	}},
	{"Struct[v=>Variant[S,Undef],n=>Variant[Undef,Array[R]]]", func(s, r *T) *T {
		return &T{K: tStruct, Keys: []*V{vStr("v"), vStr("n")}, E: []*T{{K: tAnyOf, E: []*T{s, tk(tNil)}}, {K: tAnyOf, E: []*T{tk(tNil), tArr(r, 0, unbounded)}}}, Req: []bool{true, true}}
	}},
}

func TestP26_Recursive(t *testing.T) {
	rx := regexp.MustCompile(`[A-Za-z]+|=>|.`)
	prop(t, 4000, "a self-referencing type in pcore notation, with members and near misses of its unrolled form; non-trivial when the value nests", func(c *C) {
		f := rapid.SampledFrom(pcoreForms).Draw(c.T, "form")
		s := drawTK(c.T, tIntRange, tOpts{depth: 1})
		s.Incl = true
		name := rapid.SampledFrom([]string{"Rec", "My::Tree", "T1"}).Draw(c.T, "name")
		w := newPwriter(c.T)
		declared := w.chance(1, "declare")
		if declared {
			// the range is an alias as well
			w.emit("[", "type", "S", "=", "Integer", "[", w.intTok(s.Min), ",", w.intTok(s.Max), "]", ",")
		}
		w.emit("type", name, "=")
		for _, tok := range rx.FindAllString(f.text, -1) {
			switch {
			case tok == "R":
				w.emit(name)
			case tok == "S" && !declared:
				w.emit("Integer", "[", w.intTok(s.Min), ",", w.intTok(s.Max), "]")
			default:
				w.emit(tok)
			}
		}
		if declared {
			w.emit("]")
		}
		text := w.text()
		v, _, p := parsePcore(text)
		if p != nil {
			c.Fatalf("%q is rejected: %s", text, p)
		}
		if declared {
			v = v.(dgo.Array).Get(1)
		}
		ty, ok := v.(dgo.Type)
		if !ok {
			c.Fatalf("%q declares %s", text, v)
		}
		u := unroll(f.body, s, 8)
		var m *V
		if w.pick(4, "other") == 0 {
			m = drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 3, width: 3})
		} else if m = drawMember(c.T, unroll(f.body, s, rapid.IntRange(1, 4).Draw(c.T, "depth")), 5); m == nil {
			return
		} else if rapid.Bool().Draw(c.T, "near") {
			m = drawNear(c.T, m, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 2, width: 2})
		}
		if m.height() > 7 || nonASCIISized(u, m) {
			return
		}
		if got, want := ty.Instance(build(m, drawRouter(c.T))), member(u, m); got != want {
			c.Fatalf("%s is an instance of %q: %v", m.str(), text, got)
		}
		c.Class(f.text)
		if m.height() > 2 {
			c.NonTrivial(text + " " + m.str())
		}
	})
}

// TestP26_NotAType declares aliases for what isn't a type
func TestP26_NotAType(t *testing.T) {
	prop(t, 1000, "an alias for a value that isn't a type; always non-trivial", func(c *C) {
		w := newPwriter(c.T)
		in := w.pick(4, "in")
		switch in {
		case 1:
			w.emit("[")
		case 2:
			w.emit("{", "'a'", "=>")
		case 3:
			w.emit("Array", "[")
		}
		w.emit("type", "Xyz", "=")
		v := drawV(c.T, vOpts{kinds: []K{kNil, kBool, kInt, kString, kArray, kMap}, keys: []K{kString, kInt}, depth: 2, width: 3})
		w.value(v)
		switch in {
		case 1:
			w.emit(",", "Xyz", "]")
		case 2:
			w.emit("}")
		case 3:
			w.emit("]")
		}
		s := w.text()
		c.Doing("%s", s)
		got, _, p := parsePcore(s)
		if p == nil {
			c.Fatalf("%q is accepted, as %s", s, got)
		}
		if p.runtimeErr() {
			c.Fatalf("%q fails with %s\n%s", s, p, p.stack)
		}
		c.Class("%s", v.K)
		c.NonTrivial(s)
	})
}

// TestP26_Numbers reads numbers
func TestP26_Numbers(t *testing.T) {
	prop(t, 10000, "a numeral; non-trivial with more than 3 characters", func(c *C) {
		n := drawNumeral(c.T)
		c.Doing("%s", n.text)
		v, _, p := parsePcore(n.text)
		checkNumeral(c, n, v, p)
	})
}

// TestP26_Parameters gives types a number of parameters that they don't have
func TestP26_Parameters(t *testing.T) {
	counts := []struct {
		name     string
		min, max int
	}{{"Array", 1, 3}, {"Binary", 1, 2}, {"Enum", 1, 9}, {"Float", 1, 2}, {"Hash", 1, 4}, {"Integer", 1, 2}, {"Number", 1, 2}, {"NotUndef", 1, 1}, {"Optional", 1, 1},
		{"Pattern", 1, 9}, {"Regexp", 1, 1}, {"String", 1, 2}, {"Type", 1, 1}, {"Sensitive", 0, 1}, {"Any", 0, 0}, {"Boolean", 0, 0}, {"Timestamp", 0, 0}, {"Undef", 0, 0}}
	prop(t, 4000, "a type with a wrong number of parameters, somewhere; non-trivial when there are parameters", func(c *C) {
		k := rapid.SampledFrom(counts).Draw(c.T, "type")
		n := rapid.IntRange(0, 6).Draw(c.T, "n")
		if n >= k.min && n <= k.max && !(n == 0 && k.max == 0) {
			n = k.max + 1
			if k.min > 0 && (n > 6 || rapid.Bool().Draw(c.T, "none")) {
				n = 0
			}
		}
		ps := make([]string, n)
		for i := range ps {
			ps[i] = rapid.SampledFrom([]string{"1", "5", "default", "String", "Integer", "'a'", "/b/", "2.5"}).Draw(c.T, "param")
		}
		s := k.name + "[" + strings.Join(ps, ",") + "]"
		s = fmt.Sprintf(rapid.SampledFrom([]string{"%s", "Array[%s]", "{'a'=>%s}", "type X=%s", "Variant[String,%s]"}).Draw(c.T, "in"), s)
		c.Doing("%s", s)
		v, _, p := parsePcore(s)
		if p == nil {
			c.Fatalf("%s is accepted, as %s", s, v)
		}
		if p.runtimeErr() {
			c.Fatalf("%s fails with %s\n%s", s, p, p.stack)
		}
		c.Class("%s", k.name)
		if n > 0 {
			c.NonTrivial(s)
		}
	})
}
