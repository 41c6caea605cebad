package props

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// TK is the kind of a model type
type TK int

const (
	tAny TK = iota
	tNil
	tBool
	tInt
	tIntRange
	tFloat
	tFloatRange
	tString
	tStringSized
	tPattern
	tCi
	tBinary
	tBinarySized
	tTime
	tRegexp
	tExact // the type of a value
	tArray // element, min, max
	tTuple
	tVarTuple
	tMap // key, value, min, max
	tStruct
	tSensitive
	tAnyOf
	tAllOf
	tOneOf
	tNot
	tMeta
	tFunc
	tkCount
	tRef = tkCount // a reference by name to a type that is found in To. Never drawn by drawT.
)

var tkNames = []string{"any", "nil", "bool", "int", "intRange", "float", "floatRange", "string", "stringSized", "pattern", "ci", "binary", "binarySized",
	"time", "regexp", "exact", "array", "tuple", "varTuple", "map", "struct", "sensitive", "anyOf", "allOf", "oneOf", "not", "meta", "func", "ref"}

// T is the model of a type
type T struct {
	K          TK
	Min, Max   int64
	FMin, FMax float64
	Incl       bool
	S          string
	V          *V
	E          []*T // element types, key and value types, operands, function parameters
	R          []*T // function return types
	Keys       []*V // struct keys
	Req        []bool
	Add        bool // struct accepts additional entries, or function is variadic
	To         *T   // what a reference refers to
}

const unbounded = math.MaxInt64

func tk(k TK) *T { return &T{K: k} }
func tExactOf(v *V) *T {
	if v.K == kNil {
		return tk(tNil) // one and the same type
	}
	return &T{K: tExact, V: v}
}
func tArr(e *T, a, b int64) *T { return &T{K: tArray, E: []*T{e}, Min: a, Max: b} }
func tIR(a, b int64, incl bool) *T {
	return &T{K: tIntRange, Min: a, Max: b, Incl: incl}
}

// str renders the model unambiguously
func (t *T) str() string {
	sub := func(ts []*T) string {
		ss := make([]string, len(ts))
		for i := range ts {
			ss[i] = ts[i].str()
		}
		return strings.Join(ss, ",")
	}
	switch t.K {
	case tRef:
		return "^" + t.S
	case tIntRange:
		return fmt.Sprintf("int(%d,%d,%v)", t.Min, t.Max, t.Incl)
	case tFloatRange:
		return fmt.Sprintf("float(%g,%g,%v)", t.FMin, t.FMax, t.Incl)
	case tStringSized, tBinarySized:
		return fmt.Sprintf("%s(%d,%d)", tkNames[t.K], t.Min, t.Max)
	case tPattern, tCi:
		return fmt.Sprintf("%s(%q)", tkNames[t.K], t.S)
	case tExact:
		return "exact(" + t.V.str() + ")"
	case tArray, tMap:
		return fmt.Sprintf("%s(%s,%d,%d)", tkNames[t.K], sub(t.E), t.Min, t.Max)
	case tStruct:
		sb := &strings.Builder{}
		sb.WriteString("struct(")
		for i := range t.Keys {
			fmt.Fprintf(sb, "%s req=%v: %s,", t.Keys[i].str(), t.Req[i], t.E[i].str())
		}
		fmt.Fprintf(sb, "%v)", t.Add)
		return sb.String()
	case tFunc:
		return fmt.Sprintf("func(%s %v)(%s)", sub(t.E), t.Add, sub(t.R))
	}
	if len(t.E) > 0 || t.K >= tExact {
		return tkNames[t.K] + "(" + sub(t.E) + ")"
	}
	return tkNames[t.K]
}

func (t *T) has(p func(*T) bool) bool {
	if p(t) {
		return true
	}
	for _, e := range t.E {
		if e.has(p) {
			return true
		}
	}
	for _, e := range t.R {
		if e.has(p) {
			return true
		}
	}
	return false
}

func (t *T) hasKind(ks ...TK) bool {
	return t.has(func(x *T) bool {
		for _, k := range ks {
			if x.K == k {
				return true
			}
		}
		return false
	})
}

func (t *T) nodes() int {
	n := 1
	for _, e := range t.E {
		n += e.nodes()
	}
	for _, e := range t.R {
		n += e.nodes()
	}
	return n
}

func (t *T) kinds(m map[TK]bool) {
	m[t.K] = true
	for _, e := range t.E {
		e.kinds(m)
	}
}

// ---- construction through the type factory ----------------------------------------------------------------

func (t *T) build() dgo.Type {
	sub := func(ts []*T) []interface{} {
		r := make([]interface{}, len(ts))
		for i := range ts {
			r[i] = ts[i].build()
		}
		return r
	}
	switch t.K {
	case tRef:
		return parser.NewAlias(vf.String(t.S))
	case tAny:
		return typ.Any
	case tNil:
		return typ.Nil
	case tBool:
		return typ.Boolean
	case tInt:
		return typ.Integer
	case tIntRange:
		return tf.Integer(t.Min, t.Max, t.Incl)
	case tFloat:
		return typ.Float
	case tFloatRange:
		return tf.Float(t.FMin, t.FMax, t.Incl)
	case tString:
		return typ.String
	case tStringSized:
		if t.Max == unbounded {
			return tf.String(t.Min)
		}
		return tf.String(t.Min, t.Max)
	case tPattern:
		return tf.Pattern(regexp.MustCompile(t.S))
	case tCi:
		return tf.CiString(t.S)
	case tBinary:
		return typ.Binary
	case tBinarySized:
		if t.Max == unbounded {
			return tf.Binary(t.Min)
		}
		return tf.Binary(t.Min, t.Max)
	case tTime:
		return typ.Time
	case tRegexp:
		return typ.Regexp
	case tExact:
		return build(t.V, frozenRoute).Type()
	case tArray:
		e := t.E[0].build()
		switch {
		case t.Max == unbounded && t.Min == 0:
			return tf.Array(e)
		case t.Max == unbounded:
			return tf.Array(e, t.Min)
		}
		return tf.Array(e, t.Min, t.Max)
	case tTuple:
		return tf.Tuple(sub(t.E)...)
	case tVarTuple:
		return tf.VariadicTuple(sub(t.E)...)
	case tMap:
		k, v := t.E[0].build(), t.E[1].build()
		switch {
		case t.Max == unbounded && t.Min == 0:
			return tf.Map(k, v)
		case t.Max == unbounded:
			return tf.Map(k, v, t.Min)
		}
		return tf.Map(k, v, t.Min, t.Max)
	case tStruct:
		es := make([]dgo.StructMapEntry, len(t.Keys))
		for i := range t.Keys {
			es[i] = tf.StructMapEntry(build(t.Keys[i], frozenRoute), t.E[i].build(), t.Req[i])
		}
		return tf.StructMap(t.Add, es...)
	case tSensitive:
		if len(t.E) == 0 {
			return typ.Sensitive
		}
		return tf.Sensitive(t.E[0].build())
	case tAnyOf:
		return tf.AnyOf(sub(t.E)...)
	case tAllOf:
		return tf.AllOf(sub(t.E)...)
	case tOneOf:
		return tf.OneOf(sub(t.E)...)
	case tNot:
		return tf.Not(t.E[0].build())
	case tMeta:
		return tf.Meta(t.E[0].build())
	case tFunc:
		var in dgo.TupleType
		if t.Add {
			in = tf.VariadicTuple(sub(t.E)...)
		} else {
			in = tf.Tuple(sub(t.E)...)
		}
		return tf.Function(in, tf.Tuple(sub(t.R)...))
	}
	panic("type build " + tkNames[t.K])
}

func frozenRoute(int) int { return 0 }

// ---- the reference meaning of types -----------------------------------------------------------------------

func inRange(n int, t *T) bool { return int64(n) >= t.Min && int64(n) <= t.Max }

// member is the reference for "v is an instance of t". The type kinds meta and func have no members among model values.
func member(t *T, v *V) bool {
	switch t.K {
	case tRef:
		return member(t.To, v)
	case tAny:
		return true
	case tNil:
		return v.K == kNil
	case tBool:
		return v.K == kBool
	case tInt:
		return v.K == kInt
	case tIntRange:
		return v.K == kInt && t.Min <= v.I && (v.I < t.Max || t.Incl && v.I == t.Max)
	case tFloat:
		return v.K == kFloat
	case tFloatRange:
		return v.K == kFloat && t.FMin <= v.F && (v.F < t.FMax || t.Incl && v.F == t.FMax)
	case tString:
		return v.K == kString
	case tStringSized:
		return v.K == kString && inRange(len(v.S), t)
	case tPattern:
		return v.K == kString && regexp.MustCompile(t.S).MatchString(v.S)
	case tCi:
		return v.K == kString && strings.EqualFold(t.S, v.S)
	case tBinary:
		return v.K == kBinary
	case tBinarySized:
		return v.K == kBinary && inRange(len(v.Y), t)
	case tTime:
		return v.K == kTime
	case tRegexp:
		return v.K == kRegexp
	case tExact:
		return refEq(t.V, v)
	case tArray:
		if v.K != kArray || !inRange(len(v.A), t) {
			return false
		}
		for _, e := range v.A {
			if !member(t.E[0], e) {
				return false
			}
		}
		return true
	case tTuple:
		if v.K != kArray || len(v.A) != len(t.E) {
			return false
		}
		for i, e := range v.A {
			if !member(t.E[i], e) {
				return false
			}
		}
		return true
	case tVarTuple:
		n := len(t.E) - 1
		if v.K != kArray || len(v.A) < n {
			return false
		}
		for i, e := range v.A {
			j := i
			if j > n {
				j = n
			}
			if !member(t.E[j], e) {
				return false
			}
		}
		return true
	case tMap:
		if v.K != kMap || !inRange(len(v.MK), t) {
			return false
		}
		for i := range v.MK {
			if !member(t.E[0], v.MK[i]) || !member(t.E[1], v.MV[i]) {
				return false
			}
		}
		return true
	case tStruct:
		if v.K != kMap {
			return false
		}
		seen := 0
		for i, k := range t.Keys {
			j := v.get(k)
			if j < 0 {
				if t.Req[i] {
					return false
				}
				continue
			}
			seen++
			if !member(t.E[i], v.MV[j]) {
				return false
			}
		}
		return t.Add || seen == len(v.MK)
	case tSensitive:
		return v.K == kSensitive && (len(t.E) == 0 || member(t.E[0], v.A[0]))
	case tAnyOf:
		for _, e := range t.E {
			if member(e, v) {
				return true
			}
		}
		return false
	case tAllOf:
		for _, e := range t.E {
			if !member(e, v) {
				return false
			}
		}
		return true
	case tOneOf:
		n := 0
		for _, e := range t.E {
			if member(e, v) {
				n++
			}
		}
		return n == 1
	case tNot:
		return !member(t.E[0], v)
	}
	return false
}

// ---- generation -------------------------------------------------------------------------------------------

type tOpts struct {
	depth    int
	excl     []TK // excluded kinds
	vDepth   int  // depth of exact values
	exactKs  []K  // kinds of exact values
	width    int
	asciiRx  bool
	strKeys  bool // only string keys in structs
	wideStrs bool
}

func (o tOpts) allowed() []TK {
	var ks []TK
next:
	for k := tAny; k < tkCount; k++ {
		for _, x := range o.excl {
			if x == k {
				continue next
			}
		}
		if o.depth <= 1 && (k >= tArray && k != tStruct && k != tSensitive) {
			continue
		}
		ks = append(ks, k)
	}
	return ks
}

func genT(o tOpts) *rapid.Generator[*T] {
	return rapid.Custom(func(t *rapid.T) *T { return drawT(t, o) })
}

func drawSize(t *rapid.T) (int64, int64) {
	a := rapid.Int64Range(0, 4).Draw(t, "min")
	b := int64(unbounded)
	if rapid.IntRange(0, 2).Draw(t, "bounded") != 0 {
		b = a + rapid.Int64Range(0, 4).Draw(t, "extra")
		if rapid.IntRange(0, 9).Draw(t, "great") == 0 {
			b = rapid.SampledFrom([]int64{100, math.MaxUint8, math.MaxUint16, math.MaxInt32 - 1, math.MaxInt32, math.MaxUint32, 1 << 53, math.MaxInt64 - 1}).Draw(t, "max")
		}
	}
	return a, b
}

func drawT(t *rapid.T, o tOpts) *T {
	ks := o.allowed()
	if o.depth > 1 && rapid.Bool().Draw(t, "composite") {
		var cs []TK
		for _, k := range ks {
			if k >= tArray {
				cs = append(cs, k)
			}
		}
		if len(cs) > 0 {
			ks = cs
		}
	}
	return drawTK(t, rapid.SampledFrom(ks).Draw(t, "tk"), o)
}

func drawTK(t *rapid.T, k TK, o tOpts) *T {
	sub := o
	sub.depth--
	w := o.width
	if w == 0 {
		w = 3
	}
	many := func(min, max int) []*T {
		n := rapid.IntRange(min, max).Draw(t, "n")
		if max > 2 && rapid.IntRange(0, 11).Draw(t, "many") == 0 {
			n = rapid.IntRange(4, 9).Draw(t, "many")
			if sub.depth > 2 {
				sub.depth = 2
			}
		}
		es := make([]*T, n)
		for i := range es {
			es[i] = drawT(t, sub)
		}
		return es
	}
	switch k {
	case tIntRange:
		a := genInt().Draw(t, "a")
		var b int64
		if rapid.Bool().Draw(t, "near") && a < math.MaxInt64-12 {
			b = a + rapid.Int64Range(0, 10).Draw(t, "len")
		} else {
			b = genInt().Draw(t, "b")
		}
		if a > b {
			a, b = b, a
		}
		incl := rapid.Bool().Draw(t, "incl")
		if a == b || b == math.MaxInt64 {
			incl = true
		}
		return tIR(a, b, incl)
	case tFloatRange:
		a, b := genFloat().Draw(t, "a"), genFloat().Draw(t, "b")
		if a > b {
			a, b = b, a
		}
		incl := rapid.Bool().Draw(t, "incl")
		if a == b || b == math.MaxFloat64 {
			incl = true
		}
		return &T{K: k, FMin: a, FMax: b, Incl: incl}
	case tStringSized, tBinarySized:
		a, b := drawSize(t)
		return &T{K: k, Min: a, Max: b}
	case tPattern:
		return &T{K: k, S: rapid.SampledFrom(rxPool).Draw(t, "rx")}
	case tCi:
		return &T{K: k, S: genStr(o.wideStrs).Draw(t, "ci")}
	case tExact:
		ks := o.exactKs
		if ks == nil {
			ks = []K{kNil, kBool, kInt, kFloat, kString, kBinary, kTime, kRegexp, kArray, kMap}
		}
		d := o.vDepth
		if d == 0 {
			d = 2
		}
		vo := vOpts{kinds: ks, keys: []K{kString, kInt, kBool, kFloat}, depth: d, width: 3, wideStr: o.wideStrs}
		return tExactOf(drawV(t, vo))
	case tArray:
		a, b := drawSize(t)
		return tArr(drawT(t, sub), a, b)
	case tTuple:
		return &T{K: k, E: many(0, w)}
	case tVarTuple:
		return &T{K: k, E: many(1, w)}
	case tMap:
		a, b := drawSize(t)
		ko := sub
		ko.depth = 1
		ko.excl = append(append([]TK{}, o.excl...), tStruct, tSensitive)
		return &T{K: k, E: []*T{drawT(t, ko), drawT(t, sub)}, Min: a, Max: b}
	case tStruct:
		n := rapid.IntRange(0, w).Draw(t, "n")
		if rapid.IntRange(0, 11).Draw(t, "many") == 0 {
			n = rapid.IntRange(4, 12).Draw(t, "many")
			if sub.depth > 2 {
				sub.depth = 2
			}
		}
		st := &T{K: k, Add: rapid.Bool().Draw(t, "additional")}
		seen := vMap()
		for i := 0; i < n; i++ {
			var key *V
			if o.strKeys || rapid.IntRange(0, 4).Draw(t, "keyKind") != 0 {
				key = vStr(genStr(o.wideStrs).Draw(t, "key"))
			} else {
				key = vInt(rapid.Int64Range(0, 5).Draw(t, "key"))
			}
			if seen.get(key) >= 0 {
				continue
			}
			seen.put(key, vNil())
			st.Keys = append(st.Keys, key)
			st.E = append(st.E, drawT(t, sub))
			st.Req = append(st.Req, rapid.Bool().Draw(t, "required"))
		}
		return st
	case tSensitive:
		if o.depth <= 1 || rapid.Bool().Draw(t, "plain") {
			return &T{K: k}
		}
		return &T{K: k, E: []*T{drawT(t, sub)}}
	case tAnyOf, tAllOf, tOneOf:
		return &T{K: k, E: many(2, w)}
	case tNot:
		e := drawT(t, sub)
		if e.K == tNot {
			return e
		}
		return &T{K: k, E: []*T{e}}
	case tMeta:
		return &T{K: k, E: []*T{drawT(t, sub)}}
	case tFunc:
		f := &T{K: k, Add: rapid.Bool().Draw(t, "variadic")}
		if f.Add {
			f.E = many(1, w)
		} else {
			f.E = many(0, w)
		}
		f.R = many(0, 2)
		return f
	}
	return tk(k)
}

// refDepth limits how deep drawMember follows references
var refDepth int

// drawMember draws a value that is an instance of the type by reference, or nil if none was found. Also near misses are
// produced by the caller through drawNear.
func drawMember(t *rapid.T, tt *T, depth int) *V {
	if depth <= 0 {
		depth = 1
	}
	any := func() *V { return drawV(t, vOpts{kinds: richKinds, keys: []K{kString, kInt}, depth: 2, width: 3}) }
	length := func() int {
		hi := tt.Min + rapid.SampledFrom([]int64{1, 3, 3, 8}).Draw(t, "span")
		if hi > tt.Max {
			hi = tt.Max
		}
		return int(rapid.Int64Range(tt.Min, hi).Draw(t, "len"))
	}
	var v *V
	switch tt.K {
	case tRef:
		if refDepth < 4 {
			refDepth++
			defer func() { refDepth-- }()
			v = drawMember(t, tt.To, depth)
		}
	case tAny:
		v = any()
	case tNil:
		v = vNil()
	case tBool:
		v = vBool(rapid.Bool().Draw(t, "b"))
	case tInt:
		v = vInt(genInt().Draw(t, "i"))
	case tIntRange:
		switch rapid.IntRange(0, 3).Draw(t, "edge") {
		case 0:
			v = vInt(tt.Min)
		case 1:
			v = vInt(tt.Max)
			if !tt.Incl {
				v = vInt(tt.Max - 1)
			}
		default:
			v = vInt(rapid.Int64Range(tt.Min, tt.Max).Draw(t, "i"))
		}
	case tFloat:
		v = vFloat(genFloat().Draw(t, "f"))
	case tFloatRange:
		switch rapid.IntRange(0, 3).Draw(t, "edge") {
		case 0:
			v = vFloat(tt.FMin)
		case 1:
			v = vFloat(tt.FMax)
		default:
			v = vFloat(rapid.Float64Range(tt.FMin, tt.FMax).Draw(t, "f"))
		}
	case tString, tPattern:
		if tt.K == tPattern && rapid.Bool().Draw(t, "matching") {
			v = vStr(rapid.SampledFrom([]string{"a", "ab", "12", "b", "AB", "ABC", "a/b", "X", "\"", "\n", "é", "\\", "1"}).Draw(t, "s"))
		} else {
			v = vStr(genStr(true).Draw(t, "s"))
		}
	case tStringSized:
		v = vStr(strings.Repeat(rapid.SampledFrom([]string{"a", "x", "B"}).Draw(t, "c"), length()))
	case tCi:
		v = vStr(rapid.SampledFrom([]string{tt.S, strings.ToUpper(tt.S), strings.ToLower(tt.S), foldedOther(tt.S)}).Draw(t, "s"))
	case tBinary:
		v = vBin(genBytes().Draw(t, "bin"))
	case tBinarySized:
		v = vBin(make([]byte, length()))
	case tTime:
		v = vTime(genTime().Draw(t, "t"))
	case tRegexp:
		v = vRx(rapid.SampledFrom(rxPool).Draw(t, "rx"))
	case tExact:
		v = tt.V.clone()
	case tArray:
		n := length()
		v = vArr()
		for i := 0; i < n; i++ {
			e := drawMember(t, tt.E[0], depth-1)
			if e == nil {
				return nil
			}
			v.A = append(v.A, e)
		}
	case tTuple, tVarTuple:
		v = vArr()
		for i, et := range tt.E {
			n := 1
			if tt.K == tVarTuple && i == len(tt.E)-1 {
				n = rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(t, "rest")
			}
			for j := 0; j < n; j++ {
				e := drawMember(t, et, depth-1)
				if e == nil {
					return nil
				}
				v.A = append(v.A, e)
			}
		}
	case tMap:
		n := length()
		v = vMap()
		for i := 0; i < n*2 && len(v.MK) < n; i++ {
			k, e := drawMember(t, tt.E[0], 1), drawMember(t, tt.E[1], depth-1)
			if k == nil || e == nil {
				break
			}
			v.put(k, e)
		}
	case tStruct:
		v = vMap()
		for i, k := range tt.Keys {
			if !tt.Req[i] && rapid.Bool().Draw(t, "omit") {
				continue
			}
			e := drawMember(t, tt.E[i], depth-1)
			if e == nil {
				if tt.Req[i] {
					return nil
				}
				continue
			}
			v.put(k, e)
		}
		if tt.Add {
			for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 5}).Draw(t, "more"); n > 0; n-- {
				k := vStr(genStr(false).Draw(t, "k"))
				if n > 1 && rapid.Bool().Draw(t, "int key") {
					k = vInt(int64(n))
				}
				if v.get(k) < 0 {
					v.put(k, any())
				}
			}
		}
	case tSensitive:
		if len(tt.E) == 0 {
			v = vSens(any())
		} else if e := drawMember(t, tt.E[0], depth-1); e != nil {
			v = vSens(e)
		}
	case tAnyOf, tOneOf, tAllOf:
		v = drawMember(t, rapid.SampledFrom(tt.E).Draw(t, "operand"), depth)
	case tNot:
		if rapid.Bool().Draw(t, "near") {
			if m := drawMember(t, tt.E[0], depth-1); m != nil {
				v = drawNear(t, m, vOpts{kinds: richKinds, keys: []K{kString}, depth: 2, width: 2})
				break
			}
		}
		v = any()
	}
	if v == nil || !member(tt, v) {
		return nil
	}
	return v
}

// foldedOther replaces each letter with the next that is equal under case folding
func foldedOther(s string) string {
	if !utf8.ValidString(s) {
		return s
	}
	return strings.Map(unicode.SimpleFold, s)
}

// drawCandidate draws a value that is interesting for the type: a member, a near miss or something else
func drawCandidate(t *rapid.T, tt *T) *V {
	switch rapid.IntRange(0, 5).Draw(t, "candidate") {
	case 0:
		return drawV(t, richOpts(3))
	case 1, 2:
		if m := drawMember(t, tt, 3); m != nil {
			return drawNear(t, m, vOpts{kinds: richKinds, keys: []K{kString}, depth: 2, width: 2})
		}
	default:
		if m := drawMember(t, tt, 3); m != nil {
			return m
		}
	}
	return drawV(t, richOpts(2))
}

// nonASCIISized is true when a size constraint on strings could be applied to a string where the number of characters and
// the number of bytes differ. The documentation says characters, the code counts bytes.
func nonASCIISized(t *T, v *V) bool {
	if !t.hasKind(tStringSized) {
		return false
	}
	na := func(x *V) bool {
		if x.K != kString {
			return false
		}
		for _, r := range x.S {
			if r >= 0x80 {
				return true
			}
		}
		return false
	}
	return v != nil && v.has(na) || t.has(func(x *T) bool { return x.V != nil && x.V.has(na) || x.K == tCi && na(vStr(x.S)) })
}

func kindsLabel(t *T) string {
	m := map[TK]bool{}
	t.kinds(m)
	var ss []string
	for k := range m {
		ss = append(ss, tkNames[k])
	}
	sort.Strings(ss)
	return strings.Join(ss, "+")
}

var _ = vf.Nil

// clone copies the model
func (t *T) clone() *T {
	c := *t
	c.E, c.R = nil, nil
	for _, e := range t.E {
		c.E = append(c.E, e.clone())
	}
	for _, e := range t.R {
		c.R = append(c.R, e.clone())
	}
	if t.V != nil {
		c.V = t.V.clone()
	}
	c.Keys = append([]*V(nil), t.Keys...)
	c.Req = append([]bool(nil), t.Req...)
	return &c
}

// canon renders the model with the operands of combinations sorted, and maps in exact values sorted
func (t *T) canon() string {
	c := t.clone()
	var f func(x *T)
	f = func(x *T) {
		for _, e := range x.E {
			f(e)
		}
		for _, e := range x.R {
			f(e)
		}
		if x.V != nil {
			x.V = canonV(x.V)
		}
		if x.K == tAnyOf || x.K == tAllOf || x.K == tOneOf {
			sort.SliceStable(x.E, func(i, j int) bool { return x.E[i].str() < x.E[j].str() })
		}
	}
	f(c)
	return c.str()
}

func canonV(v *V) *V {
	c := v.clone()
	var f func(x *V)
	f = func(x *V) {
		for _, l := range [][]*V{x.A, x.MK, x.MV} {
			for _, e := range l {
				f(e)
			}
		}
		if x.K == kMap {
			idx := make([]int, len(x.MK))
			for i := range idx {
				idx[i] = i
			}
			sort.SliceStable(idx, func(i, j int) bool { return x.MK[idx[i]].str() < x.MK[idx[j]].str() })
			mk, mv := make([]*V, len(idx)), make([]*V, len(idx))
			for i, j := range idx {
				mk[i], mv[i] = x.MK[j], x.MV[j]
			}
			x.MK, x.MV = mk, mv
		}
	}
	f(c)
	return c
}

// permuteOps shuffles the operands of all combinations in place
func permuteOps(t *rapid.T, x *T) {
	for _, e := range x.E {
		permuteOps(t, e)
	}
	for _, e := range x.R {
		permuteOps(t, e)
	}
	if x.V != nil {
		shuffleMaps(t, x.V)
	}
	if (x.K == tAnyOf || x.K == tAllOf || x.K == tOneOf) && len(x.E) > 1 {
		x.E = rapid.Permutation(x.E).Draw(t, "operands")
	}
}

// drawNearT draws a type that is equal to, or close to, the given one
func drawNearT(t *rapid.T, a *T, o tOpts) *T {
	c := a.clone()
	switch rapid.IntRange(0, 6).Draw(t, "nearT") {
	case 0:
		return c
	case 1, 2:
		permuteOps(t, c)
		return c
	}
	n := rapid.IntRange(0, c.nodes()-1).Draw(t, "tnode")
	var walk func(p **T)
	walk = func(p **T) {
		if n < 0 {
			return
		}
		if n == 0 {
			n--
			*p = tweakT(t, *p, o)
			return
		}
		n--
		x := *p
		for i := range x.E {
			walk(&x.E[i])
		}
		for i := range x.R {
			walk(&x.R[i])
		}
	}
	walk(&c)
	return c
}

func tweakT(t *rapid.T, x *T, o tOpts) *T {
	c := x.clone()
	switch x.K {
	case tIntRange:
		if !c.Incl || c.Min < c.Max && c.Max != math.MaxInt64 {
			if rapid.Bool().Draw(t, "incl") {
				c.Incl = !c.Incl
				return c
			}
		}
		if c.Max < math.MaxInt64-1 {
			c.Max++
		}
	case tFloatRange:
		if c.FMin < c.FMax && c.FMax != math.MaxFloat64 {
			c.Incl = !c.Incl
		}
	case tStringSized, tBinarySized, tArray, tMap:
		if c.Max == unbounded {
			c.Max = c.Min + 2
		} else if rapid.Bool().Draw(t, "max") {
			c.Max++
		} else if c.Min < c.Max {
			c.Min++
		} else {
			c.Max = unbounded
		}
	case tPattern, tCi:
		return &T{K: tk(tPattern).K + tCi - x.K, S: rapid.SampledFrom(rxPool[:8]).Draw(t, "rx")}
	case tExact:
		c.V = drawNear(t, c.V, vOpts{kinds: []K{kNil, kBool, kInt, kFloat, kString, kBinary, kTime, kRegexp, kArray, kMap}, keys: []K{kString, kInt}, depth: 2, width: 2})
		if c.V.has(func(v *V) bool { return v.K == kSensitive || v.K == kType }) {
			return x.clone()
		}
		return tExactOf(c.V)
	case tTuple, tVarTuple, tAnyOf, tAllOf, tOneOf:
		ks := []TK{tTuple, tVarTuple}
		if x.K >= tAnyOf {
			ks = []TK{tAnyOf, tAllOf, tOneOf}
		}
		switch rapid.IntRange(0, 3).Draw(t, "tweakT") {
		case 0:
			if len(c.E) > 0 {
				c.K = rapid.SampledFrom(ks).Draw(t, "otherKind")
			}
		case 1:
			if len(c.E) > 2 {
				c.E = c.E[1:]
			} else {
				c.E = append(c.E, tk(tInt))
			}
		case 2:
			if len(c.E) > 0 {
				c.E = append(c.E, c.E[0].clone())
			}
		default:
			if len(c.E) > 0 {
				c.E[0] = tk(tString)
			}
		}
	case tStruct:
		if len(c.Keys) == 0 {
			c.Add = !c.Add
			break
		}
		i := rapid.IntRange(0, len(c.Keys)-1).Draw(t, "entry")
		switch rapid.IntRange(0, 3).Draw(t, "tweakT") {
		case 0:
			c.Add = !c.Add
		case 1:
			c.Req[i] = !c.Req[i]
		case 2:
			c.E[i] = tk(tAny)
		default:
			c.Keys = append(append([]*V{}, c.Keys[:i]...), c.Keys[i+1:]...)
			c.E = append(append([]*T{}, c.E[:i]...), c.E[i+1:]...)
			c.Req = append(append([]bool{}, c.Req[:i]...), c.Req[i+1:]...)
		}
	case tSensitive:
		if len(c.E) > 0 {
			c.E = nil
		} else {
			c.E = []*T{tk(tAny)}
		}
	case tNot:
		return c.E[0]
	case tMeta:
		return &T{K: tMeta, E: []*T{tk(tAny)}}
	case tFunc:
		if rapid.Bool().Draw(t, "ret") {
			c.R = append(c.R, tk(tInt))
		} else {
			c.E = append(c.E, tk(tInt))
		}
	default:
		o.depth = 1
		return drawT(t, o)
	}
	return c
}
