package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// writer writes a model type as a sentence of the type language, choosing freely among the forms that the language has
type writer struct {
	t     *rapid.T
	toks  []string
	alias map[string]*T // declared so far
	names []string
	count int
	plain bool // no aliases
	whole *T   // the type that is written
	taken map[string]bool
}

// levels of the grammar: a sub expression of a lower level than required must be put in parentheses
const (
	lAny = iota
	lOne
	lAll
	lUnary
	lPrimary
)

func (w *writer) emit(ss ...string) { w.toks = append(w.toks, ss...) }

func (w *writer) chance(n int, what string) bool { return rapid.IntRange(0, n).Draw(w.t, what) == n }

func (w *writer) intTok(i int64) string {
	switch rapid.IntRange(0, 5).Draw(w.t, "intForm") {
	case 0:
		if i >= 0 {
			return "0x" + strconv.FormatInt(i, 16)
		}
		if i > math.MinInt64 {
			return "-0X" + strings.ToUpper(strconv.FormatInt(-i, 16))
		}
	case 1:
		if i >= 0 {
			return "0" + strconv.FormatInt(i, 8)
		}
		if i > math.MinInt64 {
			return "-0" + strconv.FormatInt(-i, 8)
		}
	case 2:
		if i >= 0 {
			return "+" + strconv.FormatInt(i, 10)
		}
	}
	return strconv.FormatInt(i, 10)
}

func (w *writer) floatTok(f float64) string {
	var s string
	switch rapid.IntRange(0, 3).Draw(w.t, "floatForm") {
	case 0:
		s = strconv.FormatFloat(f, 'f', -1, 64)
	case 1:
		s = strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		s = strconv.FormatFloat(f, 'E', -1, 64)
	default:
		s = strconv.FormatFloat(f, 'g', -1, 64)
	}
	if !strings.ContainsAny(s, ".eE") {
		s += "." + strings.Repeat("0", rapid.IntRange(1, 3).Draw(w.t, "zeros"))
	}
	return s
}

func (w *writer) strTok(s string) string {
	raw := utf8.ValidString(s) && !strings.ContainsAny(s, "`\x00")
	if raw && w.chance(3, "raw") {
		return "`" + s + "`"
	}
	return w.quoted(s, '"')
}

// quoted writes a string between quotes, with freely chosen escapes
func (w *writer) quoted(s string, quote rune) string {
	sb := &strings.Builder{}
	sb.WriteRune(quote)
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		form := rapid.IntRange(0, 5).Draw(w.t, "charForm")
		switch {
		case r == utf8.RuneError && n == 1:
			fmt.Fprintf(sb, `\x%02x`, s[i])
		case r == quote || r == '\\':
			sb.WriteString(`\` + string(r))
		case r == '\n':
			sb.WriteString(`\n`)
		case r == 0:
			sb.WriteString(`\x00`)
		case r == '\t' && form > 2:
			sb.WriteString(`\t`)
		case r == '\r' && form > 2:
			sb.WriteString(`\r`)
		case (r == '\a' || r == '\b' || r == '\f' || r == '\v') && form > 2:
			sb.WriteString(map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`}[r])
		case form == 0 && r < 128:
			fmt.Fprintf(sb, `\x%02X`, r)
		case form == 1 && r <= 0xffff:
			fmt.Fprintf(sb, `\u%04x`, r)
		case form == 2:
			fmt.Fprintf(sb, `\U%08X`, r)
		default:
			sb.WriteRune(r)
		}
		i += n
	}
	sb.WriteRune(quote)
	return sb.String()
}

var reservedWords = map[string]bool{"any": true, "bool": true, "int": true, "float": true, "dgo": true, "binary": true, "true": true, "false": true,
	"nil": true, "map": true, "type": true, "string": true, "sensitive": true, "func": true, "data": true, "richData": true}

var identRx = regexp.MustCompile(`\A[A-Za-z_$][A-Za-z0-9_$]*\z`)

func (w *writer) value(v *V) {
	switch v.K {
	case kNil:
		w.emit("nil")
	case kBool:
		w.emit(strconv.FormatBool(v.B))
	case kInt:
		w.emit(w.intTok(v.I))
	case kFloat:
		w.emit(w.floatTok(v.F))
	case kString:
		w.emit(w.strTok(v.S))
	case kArray:
		w.emit("{")
		for i, e := range v.A {
			if i > 0 {
				w.emit(",")
			}
			w.value(e)
		}
		w.trailing(len(v.A))
		w.emit("}")
	case kMap:
		w.emit("{")
		for i, k := range v.MK {
			if i > 0 {
				w.emit(",")
			}
			w.key(k)
			w.emit(":")
			w.value(v.MV[i])
		}
		w.trailing(len(v.MK))
		w.emit("}")
	default:
		panic("no text for " + v.str())
	}
}

func (w *writer) trailing(n int) {
	if n > 0 && w.chance(3, "trailing") {
		w.emit(",")
	}
}

func (w *writer) key(k *V) {
	if k.K == kString && identRx.MatchString(k.S) && k.S != "true" && k.S != "false" && k.S != "nil" && w.chance(1, "bare") {
		w.emit(k.S)
		return
	}
	p := w.chance(7, "keyParen")
	if p {
		w.emit("(")
	}
	w.value(k)
	if p {
		w.emit(")")
	}
}

func (w *writer) size(min, max int64) {
	w.emit(w.intTok(min))
	if max != unbounded || w.chance(4, "explicitMax") {
		w.emit(",", w.intTok(max))
	}
	w.trailing(1)
}

// expr writes the type so that it can be used where the grammar requires the given level
func (w *writer) expr(t *T, level int) {
	if !w.plain && t.K >= tArray {
		key := t.str()
		for _, n := range w.names {
			if w.alias[n].str() == key && w.chance(1, "ref") {
				if w.chance(1, "angle") {
					w.emit("<", n, ">")
				} else {
					w.emit(n)
				}
				return
			}
		}
		if w.chance(5, "declare") {
			n := fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"a", "_b", "$c", "Type", "inty"}).Draw(w.t, "name"), w.count)
			// what names a type may also name keys
			var ks []string
			whole := w.whole
			if whole == nil {
				whole = t
			}
			whole.has(func(x *T) bool {
				for _, k := range x.Keys {
					if k.K == kString && identRx.MatchString(k.S) && !reservedWords[k.S] && !w.taken[k.S] {
						ks = append(ks, k.S)
					}
				}
				return false
			})
			if len(ks) > 0 && w.chance(1, "keyName") {
				n = rapid.SampledFrom(ks).Draw(w.t, "keyName")
			}
			w.count++
			if w.taken == nil {
				w.taken = map[string]bool{}
			}
			w.taken[n] = true
			if level > lAny {
				w.emit("(")
			}
			w.emit(n, "=")
			w.expr0(t, lAny)
			if level > lAny {
				w.emit(")")
			}
			w.names = append(w.names, n)
			w.alias[n] = t
			return
		}
	}
	if w.chance(9, "parens") {
		w.emit("(")
		w.expr0(t, lAny)
		w.emit(")")
		return
	}
	w.expr0(t, level)
}

func (w *writer) list(open, close string, es []*T, variadic bool) {
	w.emit(open)
	for i, e := range es {
		if i > 0 {
			w.emit(",")
		}
		if variadic && i == len(es)-1 {
			w.emit("...")
		}
		at := len(w.toks)
		w.expr(e, lAny)
		if w.toks[at] == "..." && !(variadic && i == len(es)-1) {
			// would be an ellipsis here
			w.toks = append(w.toks, "")
			copy(w.toks[at+1:], w.toks[at:])
			w.toks[at] = "("
			w.emit(")")
		}
	}
	if !variadic {
		w.trailing(len(es))
	}
	w.emit(close)
}

func (w *writer) expr0(t *T, level int) {
	need := lPrimary
	switch t.K {
	case tAnyOf:
		need = lAny
	case tOneOf:
		need = lOne
	case tAllOf:
		need = lAll
	case tNot, tCi:
		need = lUnary
	}
	if need < level {
		w.emit("(")
		defer w.emit(")")
		level = lAny
	}
	join := func(op string, l int) {
		for i, e := range t.E {
			if i > 0 {
				w.emit(op)
			}
			w.expr(e, l)
		}
	}
	dots := ".."
	if !t.Incl {
		dots = "..."
	}
	switch t.K {
	case tAny, tNil, tBool, tInt, tFloat, tString, tBinary:
		w.emit(tkNames[t.K])
	case tIntRange:
		if t.Min != math.MinInt64 || w.chance(1, "explicitMin") {
			w.emit(w.intTok(t.Min))
			w.emit(dots)
			if t.Max != math.MaxInt64 || w.chance(1, "explicitMax") {
				w.emit(w.intTok(t.Max))
			}
		} else {
			w.emit(dots, w.intTok(t.Max))
		}
	case tFloatRange:
		small := func(f float64) bool { return f == math.Trunc(f) && math.Abs(f) < 1<<53 }
		lo, hi := w.floatTok(t.FMin), w.floatTok(t.FMax)
		switch rapid.IntRange(0, 2).Draw(w.t, "mixed") {
		case 0:
			if small(t.FMin) {
				lo = w.intTok(int64(t.FMin))
			}
		case 1:
			if small(t.FMax) {
				hi = w.intTok(int64(t.FMax))
			}
		}
		switch {
		case t.FMin == -math.MaxFloat64 && strings.ContainsAny(hi, ".") && w.chance(1, "open"):
			w.emit(dots, hi)
		case t.FMax == math.MaxFloat64 && strings.ContainsAny(lo, ".") && w.chance(1, "open"):
			w.emit(lo, dots)
		default:
			w.emit(lo, dots, hi)
		}
	case tStringSized:
		w.emit("string", "[")
		w.size(t.Min, t.Max)
		w.emit("]")
	case tPattern:
		w.emit("/" + strings.ReplaceAll(t.S, "/", `\/`) + "/")
	case tCi:
		w.emit("~", w.strTok(t.S))
	case tExact:
		w.value(t.V)
	case tArray:
		w.emit("[")
		if t.Min != 0 || t.Max != unbounded || w.chance(5, "explicitSize") {
			w.size(t.Min, t.Max)
		}
		w.emit("]")
		w.expr(t.E[0], lUnary)
	case tTuple, tVarTuple:
		w.list("{", "}", t.E, t.K == tVarTuple)
	case tMap:
		w.emit("map", "[")
		w.expr(t.E[0], lAny)
		if t.Min != 0 || t.Max != unbounded || w.chance(5, "explicitSize") {
			w.emit(",")
			w.size(t.Min, t.Max)
		}
		w.emit("]")
		w.expr(t.E[1], lUnary)
	case tStruct:
		w.emit("{")
		for i, k := range t.Keys {
			if i > 0 {
				w.emit(",")
			}
			w.key(k)
			if !t.Req[i] {
				w.emit("?")
			}
			w.emit(":")
			w.expr(t.E[i], lAny)
		}
		if t.Add {
			if len(t.Keys) > 0 {
				w.emit(",")
			}
			w.emit("...")
		} else {
			w.trailing(len(t.Keys))
		}
		w.emit("}")
	case tSensitive:
		w.emit("sensitive")
		if len(t.E) > 0 {
			w.emit("[")
			w.expr(t.E[0], lAny)
			w.trailing(1)
			w.emit("]")
		}
	case tAnyOf:
		join("|", lOne)
	case tOneOf:
		join("^", lAll)
	case tAllOf:
		join("&", lUnary)
	case tNot:
		w.emit("!")
		w.expr(t.E[0], lUnary)
	case tMeta:
		w.emit("type", "[")
		w.expr(t.E[0], lAny)
		w.emit("]")
	case tFunc:
		w.emit("func")
		w.list("(", ")", t.E, t.Add)
		switch len(t.R) {
		case 0:
			if level == lAny && w.chance(1, "emptyReturn") {
				w.emit("(", ")")
			}
		case 1:
			if level == lAny {
				at, n := len(w.toks), len(w.names)
				w.expr(t.R[0], lAny)
				if w.toks[at] != "(" {
					return
				}
				w.toks, w.names = w.toks[:at], w.names[:n]
			}
			plain := w.plain
			w.plain = true
			defer func() { w.plain = plain }()
			fallthrough
		default:
			w.list("(", ")", t.R, false)
		}
	default:
		panic("no text for " + t.str())
	}
}

func identEnd(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// text joins the tokens with white space, which is only required between identifiers and numbers
func (w *writer) text() string {
	sb := &strings.Builder{}
	ws := func(min int) {
		if w.chance(3, "space") {
			min++
		}
		for ; min > 0; min-- {
			sb.WriteString(rapid.SampledFrom([]string{" ", " ", "\t", "\n"}).Draw(w.t, "ws"))
		}
	}
	ws(0)
	for i, tok := range w.toks {
		if i > 0 {
			prev := w.toks[i-1]
			c := tok[0]
			if identEnd(prev[len(prev)-1]) && identEnd(c) {
				ws(1)
			} else {
				ws(0)
			}
		}
		sb.WriteString(tok)
	}
	ws(0)
	return sb.String()
}

func sentence(t *rapid.T, f func(w *writer)) string {
	w := &writer{t: t, alias: map[string]*T{}}
	f(w)
	return w.text()
}

// parseIn parses the text in the scope of the built-in aliases only
func parseIn(s string) (v dgo.Value, am dgo.AliasMap, p *caught) {
	p = catch(func() {
		am = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = tf.ParseFile(aa, "", s) })
	})
	return
}

func asType(v dgo.Value) dgo.Type {
	if t, ok := v.(dgo.Type); ok {
		return t
	}
	return v.Type()
}

func TestP12_Types(t *testing.T) {
	prop(t, 40000, "a type and a sentence that describes it in freely chosen syntax; non-trivial for sentences of at least 6 tokens", func(c *C) {
		a := drawT(c.T, tOpts{depth: 4, wideStrs: true, excl: []TK{tBinarySized, tTime, tRegexp}, exactKs: []K{kNil, kBool, kInt, kFloat, kString, kArray, kMap}})
		if inexpressible(a) || a.has(func(x *T) bool { return x.K == tPattern && strings.ContainsAny(x.S, "\n\x00") }) {
			c.Class("no text form")
			return
		}
		w := &writer{t: c.T, alias: map[string]*T{}, whole: a}
		w.expr(a, lAny)
		s := w.text()
		v, am, p := parseIn(s)
		if p != nil {
			c.Fatalf("%q, which describes %s, is rejected: %s", s, a.str(), p)
		}
		ty, want := asType(v), a.build()
		if !ty.Equals(want) || !want.Equals(ty) || ty.HashCode() != want.HashCode() {
			c.Fatalf("%q, which describes %s, parses to %s (%T)", s, want, ty, ty)
		}
		for i := 0; i < 2; i++ {
			if m := drawCandidate(c.T, a); m != nil {
				mv := build(m, fixedRoute)
				if ty.Instance(mv) != want.Instance(mv) {
					c.Fatalf("%q: %s is an instance: %v", s, m.str(), ty.Instance(mv))
				}
			}
		}
		for _, n := range w.names {
			want := w.alias[n].build()
			if at := am.GetType(vf.String(n)); at == nil || !at.Equals(want) || !want.Equals(at) {
				c.Fatalf("%q: the alias %s is %v and not %s", s, n, at, want)
			}
		}
		if len(w.names) > 0 {
			c.Class("with aliases")
		}
		if len(w.toks) >= 6 {
			c.NonTrivial(s)
		}
	})
}

func TestP12_Values(t *testing.T) {
	prop(t, 20000, "a literal value and a sentence that describes it; non-trivial for collections", func(c *C) {
		v := drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString, kString, kInt, kBool, kFloat, kNil, kArray}, depth: 4, width: 3, wideStr: true})
		if inexpressible(tExactOf(v)) {
			c.Class("no text form")
			return
		}
		sens := v.K != kNil && rapid.IntRange(0, 9).Draw(c.T, "sensitive") == 0
		s := sentence(c.T, func(w *writer) {
			if sens {
				w.emit("sensitive")
			}
			w.value(v)
		})
		var got dgo.Value
		if p := catch(func() { got = tf.Parse(s) }); p != nil {
			c.Fatalf("%q, which describes %s, is rejected: %s", s, v.str(), p)
		}
		if sens {
			sv, ok := got.(dgo.Sensitive)
			if !ok {
				c.Fatalf("%q parses to %s (%T)", s, got, got)
			}
			got = sv.Unwrap()
		}
		if !refEq(model(got), v) || !got.Equals(build(v, fixedRoute)) {
			c.Fatalf("%q, which describes %s, parses to %s", s, v.str(), got)
		}
		if v.K == kMap && !sameOrdered(model(got), v) {
			c.Fatalf("%q parses to a map with another order: %s", s, got)
		}
		if v.K == kArray || v.K == kMap {
			c.NonTrivial(s)
		}
	})
}

// recForms are bodies of self-referencing types, as functions from the self-reference and some other type
var recForms = []struct {
	name string
	body func(s, r *T) *T
}{
	{"array", func(s, r *T) *T { return tArr(r, 0, unbounded) }},
	{"array or", func(s, r *T) *T { return tArr(&T{K: tAnyOf, E: []*T{s, r}}, 0, unbounded) }},
	{"map", func(s, r *T) *T { return &T{K: tMap, E: []*T{tk(tString), {K: tAnyOf, E: []*T{s, r}}}, Max: unbounded} }},
	{"list", func(s, r *T) *T { return &T{K: tTuple, E: []*T{s, {K: tAnyOf, E: []*T{tk(tNil), r}}}} }},
	{"variadic", func(s, r *T) *T { return &T{K: tVarTuple, E: []*T{s, r}} }},
	{"struct", func(s, r *T) *T {
		return &T{K: tStruct, Keys: []*V{vStr("v"), vStr("n")}, E: []*T{s, r}, Req: []bool{true, false}}
	}},
	{"open struct", func(s, r *T) *T {
		return &T{K: tStruct, Keys: []*V{vStr("n")}, E: []*T{r}, Req: []bool{false}, Add: true}
	}},
	{"or", func(s, r *T) *T {
		return &T{K: tAnyOf, E: []*T{s, tArr(r, 0, unbounded), {K: tMap, E: []*T{tk(tString), r}, Max: unbounded}}}
	}},
	{"and", func(s, r *T) *T { return &T{K: tAllOf, E: []*T{tArr(r, 0, unbounded), tArr(tk(tAny), 0, 2)}} }},
	{"tree", func(s, r *T) *T {
		n := &T{K: tAnyOf, E: []*T{tk(tNil), r}}
		return &T{K: tTuple, E: []*T{n, s, n}}
	}},
}

// unroll returns the n times unrolled type. What remains then accepts nothing.
func unroll(body func(s, r *T) *T, s *T, n int) *T {
	r := &T{K: tNot, E: []*T{tk(tAny)}}
	for ; n > 0; n-- {
		r = body(s, r)
	}
	return r
}

func (v *V) height() int {
	h := 0
	for _, vs := range [][]*V{v.A, v.MK, v.MV} {
		for _, e := range vs {
			if eh := e.height(); eh > h {
				h = eh
			}
		}
	}
	return h + 1
}

func TestP12_Recursive(t *testing.T) {
	prop(t, 8000, "a declaration of a self-referencing type, with members and near misses of its unrolled form; non-trivial when the value nests", func(c *C) {
		f := rapid.SampledFrom(recForms).Draw(c.T, "form")
		s := drawT(c.T, tOpts{depth: 1, excl: []TK{tBinarySized, tTime, tRegexp, tStruct, tSensitive, tPattern}, exactKs: []K{kBool, kInt, kString}})
		ref := &T{K: tkCount}
		w := &writer{t: c.T, alias: map[string]*T{}, plain: true}
		name := rapid.SampledFrom([]string{"t", "tree", "Rec", "$x"}).Draw(c.T, "name")
		w.emit(name, "=")
		w.ref(f.body(s, ref), name)
		text := w.text()
		v, _, p := parseIn(text)
		if p != nil {
			c.Fatalf("%q is rejected: %s", text, p)
		}
		ty := asType(v)
		u := unroll(f.body, s, 8)
		var m *V
		if rapid.IntRange(0, 3).Draw(c.T, "other") == 0 {
			m = drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 3, width: 3})
		} else if m = drawMember(c.T, unroll(f.body, s, rapid.IntRange(1, 4).Draw(c.T, "depth")), 5); m == nil {
			return
		} else if rapid.Bool().Draw(c.T, "near") {
			m = drawNear(c.T, m, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 2, width: 2})
		}
		if m.height() > 7 || nonASCIISized(u, m) {
			return
		}
		dv := build(m, drawRouter(c.T))
		if got, want := ty.Instance(dv), member(u, m); got != want {
			c.Fatalf("%s is an instance of %q: %v", m.str(), text, got)
		}
		c.Class(f.name)
		if m.height() > 2 {
			c.NonTrivial(text + " " + m.str())
		}
	})
}

// ref writes a type in which kind tkCount is a reference to the name
func (w *writer) ref(t *T, name string) {
	sub := &writer{t: w.t, alias: map[string]*T{}, plain: true}
	marker := "ThisIsTheSelfReference"
	sub.expr(t.replaceRef(tExactOf(vStr(marker))), lAny)
	for _, tok := range sub.toks {
		if strings.HasPrefix(tok, `"`) || strings.HasPrefix(tok, "`") {
			if u, p := parseT(tok); p == nil && u.Equals(vf.String(marker).Type()) {
				if w.chance(1, "angle") {
					w.emit("<", name, ">")
				} else {
					w.emit(name)
				}
				continue
			}
		}
		w.emit(tok)
	}
}

func (t *T) replaceRef(by *T) *T {
	if t.K == tkCount {
		return by
	}
	c := *t
	c.E = make([]*T, len(t.E))
	for i := range t.E {
		c.E[i] = t.E[i].replaceRef(by)
	}
	return &c
}

// numeral is the text of a number, and what it denotes: an *int64 or *float64, or nil when there is no such value
type numeral struct {
	text string
	i    *int64
	f    *float64
}

func drawDigits(t *rapid.T, digits string, min, max int) string {
	n := rapid.IntRange(min, max).Draw(t, "digits")
	b := make([]byte, n)
	for i := range b {
		b[i] = digits[rapid.IntRange(0, len(digits)-1).Draw(t, "digit")]
	}
	return string(b)
}

func drawNumeral(t *rapid.T) numeral {
	sign := rapid.SampledFrom([]string{"", "", "-", "+"}).Draw(t, "sign")
	asInt := func(digits string, base int) numeral {
		n, ok := new(big.Int).SetString(digits, base)
		if !ok {
			return numeral{}
		}
		if sign == "-" {
			n.Neg(n)
		}
		if !n.IsInt64() {
			return numeral{}
		}
		i := n.Int64()
		return numeral{i: &i}
	}
	max := rapid.SampledFrom([]int{3, 20, 40}).Draw(t, "max")
	var n numeral
	switch form := rapid.IntRange(0, 6).Draw(t, "form"); form {
	case 0: // decimal
		d := drawDigits(t, "0123456789", 1, max)
		if len(d) > 1 && d[0] == '0' {
			n = asInt(d, 8) // leading zero
		} else {
			n = asInt(d, 10)
		}
		n.text = d
	case 1: // near the limits
		d := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "near"))))
		switch rapid.IntRange(0, 2).Draw(t, "base") {
		case 0:
			n = asInt(d.String(), 10)
			n.text = d.String()
		case 1:
			n = asInt(d.String(), 10)
			n.text = "0x" + d.Text(16)
		case 2:
			n = asInt(d.String(), 10)
			n.text = "0" + d.Text(8)
		}
	case 2: // hexadecimal
		d := drawDigits(t, "0123456789abcdefABCDEF", 1, max)
		n = asInt(d, 16)
		n.text = rapid.SampledFrom([]string{"0x", "0X"}).Draw(t, "x") + d
	case 3: // octal
		d := "0" + drawDigits(t, "01234567", 1, max)
		n = asInt(d, 8)
		n.text = d
	default: // float
		d := drawDigits(t, "0123456789", 1, max)
		if form != 4 {
			d += "." + drawDigits(t, "0123456789", 1, max)
		}
		if form != 5 {
			d += rapid.SampledFrom([]string{"e", "E"}).Draw(t, "e") + rapid.SampledFrom([]string{"", "-", "+"}).Draw(t, "expSign") + drawDigits(t, "0123456789", 1, rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(t, "maxExp"))
		}
		n.text = d
		b, _, err := big.ParseFloat(d, 10, 2000, big.ToNearestEven)
		if err == nil {
			if sign == "-" {
				b.Neg(b)
			}
			if f, _ := b.Float64(); !math.IsInf(f, 0) {
				n.f = &f
			}
		}
	}
	n.text = sign + n.text
	return n
}

// checkNumeral checks what the text was parsed to
func checkNumeral(c *C, n numeral, v dgo.Value, p *caught) {
	switch {
	case p != nil && (p.runtimeErr() || n.i != nil || n.f != nil):
		c.Fatalf("%s is rejected: %s", n.text, p)
	case p != nil:
		c.Class("has no value")
	case n.i != nil:
		if i, ok := v.(dgo.Integer); !ok || i.GoInt() != *n.i {
			c.Fatalf("%s is read as %s", n.text, v)
		}
		c.Class("int")
	case n.f != nil:
		if f, ok := v.(dgo.Float); !ok || f.GoFloat() != *n.f {
			c.Fatalf("%s is read as %s", n.text, v)
		}
		c.Class("float")
	default:
		c.Fatalf("%s is read as %s", n.text, v)
	}
	if len(n.text) > 3 {
		c.NonTrivial(n.text)
	}
}

// TestP12_Numbers reads numbers and ranges of numbers
func TestP12_Numbers(t *testing.T) {
	prop(t, 20000, "a numeral, or two as a range; non-trivial with more than 3 characters", func(c *C) {
		n := drawNumeral(c.T)
		c.Doing("%s", n.text)
		if rapid.IntRange(0, 2).Draw(c.T, "range") > 0 {
			v, _, p := parseIn(n.text)
			checkNumeral(c, n, v, p)
			return
		}
		m := drawNumeral(c.T)
		op := rapid.SampledFrom([]string{"..", "..."}).Draw(c.T, "op")
		text := n.text + op + m.text
		c.Doing("%s", text)
		v, _, p := parseIn(text)
		ok := (n.i != nil || n.f != nil) && (m.i != nil || m.f != nil)
		if p != nil {
			if p.runtimeErr() {
				c.Fatalf("%s is rejected with %s", text, p)
			}
			if ok && (n.i == nil || m.i == nil || *n.i != math.MaxInt64) && !strings.Contains(p.String(), "range") && !strings.Contains(p.String(), "limit") {
				c.Fatalf("%s is rejected with %s", text, p)
			}
			c.Class("no range")
			return
		}
		if !ok {
			c.Fatalf("%s is read as %s", text, v)
		}
		if n.i != nil && m.i != nil {
			lo, hi := *n.i, *m.i
			if lo > hi {
				lo, hi = hi, lo
			}
			if !v.Equals(tf.Integer(lo, hi, op == "..")) {
				c.Fatalf("%s is read as %s", text, v)
			}
			c.Class("range of int")
		} else {
			lo, hi := 0.0, 0.0
			if lo = float64(ptrInt(n.i)); n.f != nil {
				lo = *n.f
			}
			if hi = float64(ptrInt(m.i)); m.f != nil {
				hi = *m.f
			}
			if lo > hi {
				lo, hi = hi, lo
			}
			if !v.Equals(tf.Float(lo, hi, op == "..")) {
				c.Fatalf("%s is read as %s, expected %s", text, v, tf.Float(lo, hi, op == ".."))
			}
			c.Class("range of float")
		}
		c.NonTrivial(text)
	})
}

func ptrInt(i *int64) int64 {
	if i == nil {
		return 0
	}
	return *i
}

// TestP12_Rejected damages sentences in ways that leave no meaning
func TestP12_Rejected(t *testing.T) {
	brackets := func(toks []string) (at []int) {
		for i, tok := range toks {
			if len(tok) == 1 && strings.Contains("()[]{}<>", tok) {
				at = append(at, i)
			}
		}
		return
	}
	prop(t, 8000, "a sentence with one bracket, quote or escape that doesn't belong; non-trivial for sentences of at least 6 tokens", func(c *C) {
		a := drawT(c.T, tOpts{depth: 3, wideStrs: true, excl: []TK{tBinarySized, tTime, tRegexp}, exactKs: []K{kNil, kBool, kInt, kFloat, kString, kArray, kMap}})
		if inexpressible(a) || a.has(func(x *T) bool { return x.K == tPattern && strings.ContainsAny(x.S, "\n\x00") }) {
			return
		}
		w := &writer{t: c.T, alias: map[string]*T{}, whole: a}
		w.expr(a, lAny)
		at := brackets(w.toks)
		what := rapid.SampledFrom([]string{"remove", "remove", "insert", "replace", "replace", "string", "regexp"}).Draw(c.T, "damage")
		if len(at) == 0 && (what == "remove" || what == "replace") {
			what = "insert"
		}
		switch what {
		case "remove":
			i := rapid.SampledFrom(at).Draw(c.T, "at")
			w.toks = append(w.toks[:i:i], w.toks[i+1:]...)
		case "insert":
			i := rapid.IntRange(0, len(w.toks)).Draw(c.T, "at")
			b := rapid.SampledFrom([]string{"(", ")", "[", "]", "{", "}", "<", ">"}).Draw(c.T, "bracket")
			w.toks = append(append(w.toks[:i:i], b), w.toks[i:]...)
		case "replace":
			i := rapid.SampledFrom(at).Draw(c.T, "at")
			w.toks[i] = rapid.SampledFrom([]string{"(", ")", "[", "]", "{", "}", "<", ">"}).Filter(func(b string) bool { return b != w.toks[i] }).Draw(c.T, "bracket")
		case "string":
			i := rapid.IntRange(0, len(w.toks)).Draw(c.T, "at")
			bad := rapid.SampledFrom([]string{`"\q"`, `"\ud800"`, `"\uDFFFx"`, `"\U00110000"`, `"\UFFFFFFFF"`, `"\x1"`, `"\xg0"`, `"a\u12"`, `"\u12x4"`, "\"a\nb\"", `"`, "`", `"a\`, `"a\"`}).Draw(c.T, "bad")
			w.toks = append(append(w.toks[:i:i], bad), w.toks[i:]...)
			if strings.HasSuffix(bad, `"`) && len(bad) > 2 && bad != `"a\"` {
				break
			}
			// the string isn't terminated, unless another one follows
			w.toks = w.toks[:i+1]
		case "regexp":
			i := rapid.IntRange(0, len(w.toks)).Draw(c.T, "at")
			w.toks = append(w.toks[:i:i], rapid.SampledFrom([]string{"/", "/a", "/a\n/", `/a\`, `/a\/`, "/[/", "/(/", "/a**/"}).Draw(c.T, "bad"))
		}
		s := w.text()
		if what == "string" || what == "regexp" {
			s = strings.TrimRight(s, " \t\n")
		}
		c.Class(what)
		v, _, p := parseIn(s)
		if p == nil {
			c.Fatalf("%q is accepted as %s", s, v)
		}
		if p.runtimeErr() {
			c.Fatalf("%q is rejected with %s", s, p)
		}
		if len(w.toks) >= 6 {
			c.NonTrivial(s)
		}
	})
}
