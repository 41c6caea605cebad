package props

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// K is the kind of a model value
type K int

const (
	kNil K = iota
	kBool
	kInt
	kFloat
	kString
	kBinary
	kTime
	kRegexp
	kSensitive
	kArray
	kMap
	kType
)

var kNames = []string{"nil", "bool", "int", "float", "string", "binary", "time", "regexp", "sensitive", "array", "map", "type"}

// V is the model of a value. It is plain Go data with its own equality, order and rendering.
type V struct {
	K  K
	B  bool
	I  int64
	F  float64
	S  string // string, regexp
	Y  []byte
	T  time.Time
	A  []*V // array elements, or the single wrapped value of a sensitive
	MK []*V
	MV []*V
	Tp *T
}

func vNil() *V             { return &V{K: kNil} }
func vBool(b bool) *V      { return &V{K: kBool, B: b} }
func vInt(i int64) *V      { return &V{K: kInt, I: i} }
func vFloat(f float64) *V  { return &V{K: kFloat, F: f} }
func vStr(s string) *V     { return &V{K: kString, S: s} }
func vBin(b []byte) *V     { return &V{K: kBinary, Y: b} }
func vTime(t time.Time) *V { return &V{K: kTime, T: t} }
func vRx(s string) *V      { return &V{K: kRegexp, S: s} }
func vSens(v *V) *V        { return &V{K: kSensitive, A: []*V{v}} }
func vArr(vs ...*V) *V     { return &V{K: kArray, A: vs} }
func vType(t *T) *V        { return &V{K: kType, Tp: t} }
func vMap(kv ...*V) *V {
	m := &V{K: kMap}
	for i := 0; i+1 < len(kv); i += 2 {
		m.MK = append(m.MK, kv[i])
		m.MV = append(m.MV, kv[i+1])
	}
	return m
}

// get returns the index of the key k or -1
func (v *V) get(k *V) int {
	for i, x := range v.MK {
		if refEq(x, k) {
			return i
		}
	}
	return -1
}

// put adds or replaces an association, retaining the order
func (v *V) put(k, x *V) {
	if i := v.get(k); i >= 0 {
		v.MV[i] = x
		return
	}
	v.MK = append(v.MK, k)
	v.MV = append(v.MV, x)
}

func (v *V) clone() *V {
	c := *v
	cp := func(vs []*V) []*V {
		if vs == nil {
			return nil
		}
		r := make([]*V, len(vs))
		for i, x := range vs {
			r[i] = x.clone()
		}
		return r
	}
	c.A, c.MK, c.MV = cp(v.A), cp(v.MK), cp(v.MV)
	c.Y = append([]byte{}, v.Y...)
	return &c
}

// refEq is the reference equality: same kind and same content, map order ignored, numbers of different kinds differ.
func refEq(a, b *V) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case kNil:
		return true
	case kBool:
		return a.B == b.B
	case kInt:
		return a.I == b.I
	case kFloat:
		return a.F == b.F
	case kString, kRegexp:
		return a.S == b.S
	case kBinary:
		return bytes.Equal(a.Y, b.Y)
	case kTime:
		return a.T.Equal(b.T)
	case kSensitive, kArray:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !refEq(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	case kMap:
		if len(a.MK) != len(b.MK) {
			return false
		}
		for i, k := range a.MK {
			j := b.get(k)
			if j < 0 || !refEq(a.MV[i], b.MV[j]) {
				return false
			}
		}
		return true
	case kType:
		return a.Tp.str() == b.Tp.str()
	}
	panic("refEq")
}

// str renders the model unambiguously. Maps are rendered in insertion order.
func (v *V) str() string {
	sb := &strings.Builder{}
	v.write(sb)
	return sb.String()
}

func (v *V) write(sb *strings.Builder) {
	switch v.K {
	case kNil:
		sb.WriteString("nil")
	case kBool:
		fmt.Fprint(sb, v.B)
	case kInt:
		fmt.Fprint(sb, v.I)
	case kFloat:
		fmt.Fprintf(sb, "%gf", v.F)
	case kString:
		fmt.Fprintf(sb, "%q", v.S)
	case kBinary:
		fmt.Fprintf(sb, "bin(%x)", v.Y)
	case kTime:
		sb.WriteString(v.T.Format(time.RFC3339Nano))
	case kRegexp:
		fmt.Fprintf(sb, "rx(%q)", v.S)
	case kSensitive:
		sb.WriteString("sensitive(")
		v.A[0].write(sb)
		sb.WriteString(")")
	case kArray:
		sb.WriteString("[")
		for i, x := range v.A {
			if i > 0 {
				sb.WriteString(", ")
			}
			x.write(sb)
		}
		sb.WriteString("]")
	case kMap:
		sb.WriteString("{")
		for i, x := range v.MK {
			if i > 0 {
				sb.WriteString(", ")
			}
			x.write(sb)
			sb.WriteString(": ")
			v.MV[i].write(sb)
		}
		sb.WriteString("}")
	case kType:
		if v.Tp == nil {
			sb.WriteString("type(" + v.S + ")")
			break
		}
		sb.WriteString("type(" + v.Tp.str() + ")")
	}
}

// depth and size of a model value
func (v *V) depth() int {
	d := 0
	for _, l := range [][]*V{v.A, v.MK, v.MV} {
		for _, x := range l {
			if n := x.depth(); n > d {
				d = n
			}
		}
	}
	return d + 1
}

func (v *V) nodes() int {
	n := 1
	for _, l := range [][]*V{v.A, v.MK, v.MV} {
		for _, x := range l {
			n += x.nodes()
		}
	}
	return n
}

// has returns true if the predicate holds for the value or anything contained in it
func (v *V) has(p func(*V) bool) bool {
	if p(v) {
		return true
	}
	for _, l := range [][]*V{v.A, v.MK, v.MV} {
		for _, x := range l {
			if x.has(p) {
				return true
			}
		}
	}
	return false
}

// ---- generation -------------------------------------------------------------------------------------------

// vOpts says what a generated value may contain
type vOpts struct {
	kinds   []K // allowed kinds
	keys    []K // allowed kinds of map keys
	depth   int
	width   int
	wideStr bool // arbitrary strings too
}

var dataKinds = []K{kNil, kBool, kInt, kFloat, kString, kArray, kMap}
var richKinds = []K{kNil, kBool, kInt, kFloat, kString, kBinary, kTime, kRegexp, kSensitive, kArray, kMap}
var scalarKeys = []K{kBool, kInt, kFloat, kString, kTime, kBinary}

func richOpts(depth int) vOpts {
	return vOpts{kinds: richKinds, keys: []K{kNil, kBool, kInt, kFloat, kString, kString, kTime, kBinary, kArray}, depth: depth, width: 4, wideStr: true}
}

func dataOpts(depth int) vOpts {
	return vOpts{kinds: dataKinds, keys: []K{kString}, depth: depth, width: 4, wideStr: true}
}

var intPool = []int64{0, 1, -1, 2, 3, 4, 5, 7, 10, 42, -3, 127, 128, -128, 255, 256, 65535, 1 << 31, -(1 << 31), 1 << 32, 1 << 53, 1<<53 + 1,
	math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

var floatPool = []float64{0, 1, -1, 0.5, 1.5, 2, 3, 3.14, -2.25, 1e6, 1e-7, 1e21, 1.5e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 42,
	0.1, -0.1, 100, 1e20, -1e20, -1e300, -1 << 63, 1 << 63, 1.2e308, -1.7e308, math.Copysign(0, -1)}

var strPool = []string{"", "a", "b", "c", "A", "aB", "abc", "ABC", "hello", "hello world", "é", "日本", "x y", "1", "true", "nil", "__x", "a\nb", "q\"q", "it's",
	"back\\slash", "tab\t", "`bt`", "a/b", "{}", "ß", "\u212a", "\u0130", "\u0131", "\u017f", "\u1e9e", "\u0001", "\u2028", "\u0080", "\u007f", "\U0001F600", "a string that is longer than the threshold", "-", "int", "type", "\xff", "caf\xc3", "bell\a\b\f\v"}

var rxPool = []string{"", "a", "^a.*$", "[0-9]+", "a|b", `\d+`, "a/b", `\\`, "^[A-Z]{2,3}$", "(?i)x", "\"", "\n", `\n`, "é+", `a\.b\:`}

var binPool = [][]byte{{}, {0}, {1}, {1, 2}, {1, 2, 3}, {255}, {0, 0}, []byte("abc"), []byte("hello world")}

var tzOdd = time.FixedZone("LMT", 1172)
var tzPlus2 = time.FixedZone("", 2*3600)

var timePool = []time.Time{
	time.Unix(0, 0).UTC(), time.Unix(1, 0).UTC(), time.Date(2019, 10, 6, 7, 15, 0, 0, time.UTC), time.Date(2019, 10, 6, 9, 15, 0, 0, tzPlus2),
	time.Date(2019, 10, 6, 7, 15, 0, 1, time.UTC), time.Date(2019, 10, 6, 7, 15, 0, 123456789, tzPlus2), time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2021, 12, 31, 23, 59, 59, 999999999, time.UTC), {}, time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
	time.Date(2019, 10, 6, 12, 45, 0, 0, time.FixedZone("", 19800)), time.Date(1890, 1, 1, 0, 0, 0, 0, time.FixedZone("LMT", 1172))}

func genInt() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.SampledFrom(intPool), rapid.Int64Range(-20, 20), rapid.Int64(), rapid.Custom(func(t *rapid.T) int64 {
		i := rapid.Int64().Draw(t, "i")
		e := rapid.SampledFrom([]int64{10, 100, 1000, 1000000, 1000000000, 2, 1024, 1 << 20}).Draw(t, "multiple")
		return i / e * e
	}))
}

func genFloat() *rapid.Generator[float64] {
	return rapid.OneOf(rapid.SampledFrom(floatPool), rapid.Float64(), rapid.Map(rapid.Int64Range(-50, 50), func(i int64) float64 { return float64(i) / 4 }))
}

func genStr(wide bool) *rapid.Generator[string] {
	if !wide {
		return rapid.OneOf(rapid.SampledFrom(strPool[:12]), rapid.StringMatching("[a-d]{1,3}"))
	}
	return rapid.OneOf(rapid.SampledFrom(strPool), rapid.StringMatching("[a-d]{1,3}"), rapid.String(), rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 3).Draw(t, "long") != 0 {
			return rapid.SampledFrom(strPool).Draw(t, "s")
		}
		return strings.Repeat(rapid.SampledFrom([]string{"a", "xy", "é", "\\", "\"", "\n", "世", "a b "}).Draw(t, "unit"), rapid.IntRange(1, 150).Draw(t, "times"))
	}))
}

func genBytes() *rapid.Generator[[]byte] {
	return rapid.OneOf(rapid.SampledFrom(binPool), rapid.SliceOfN(rapid.Byte(), 0, 40), rapid.Custom(func(t *rapid.T) []byte {
		return bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "unit"), rapid.IntRange(1, 200).Draw(t, "times"))
	}))
}

func genTime() *rapid.Generator[time.Time] {
	return rapid.OneOf(rapid.SampledFrom(timePool), rapid.Custom(func(t *rapid.T) time.Time {
		s := rapid.OneOf(rapid.Int64Range(-5000000000, 5000000000), rapid.Int64Range(-62135500000, 253402200000),
			// around the limits of what fits in an int64 as nanoseconds
			rapid.Int64Range(9214646400, 9246182400), rapid.Int64Range(-9246268800, -9214560000)).Draw(t, "sec")
		ns := rapid.SampledFrom([]int64{0, 0, 1, 1000, 500000000, 123456000, 999999999}).Draw(t, "ns")
		loc := time.UTC
		if z := rapid.IntRange(-11, 11).Draw(t, "zone"); z != 0 {
			loc = time.FixedZone("", z*3600+rapid.SampledFrom([]int{0, 0, 1800, 2700, 59, 1}).Draw(t, "odd"))
		}
		return time.Unix(s, ns).In(loc)
	}))
}

func genV(o vOpts) *rapid.Generator[*V] {
	return rapid.Custom(func(t *rapid.T) *V { return drawV(t, o) })
}

func drawV(t *rapid.T, o vOpts) *V {
	kinds := o.kinds
	if o.depth <= 1 {
		kinds = nil
		for _, k := range o.kinds {
			if k != kArray && k != kMap && k != kSensitive {
				kinds = append(kinds, k)
			}
		}
	} else if rapid.IntRange(0, 2).Draw(t, "composite") != 0 {
		kinds = nil
		for _, k := range o.kinds {
			if k == kArray || k == kMap || k == kSensitive {
				kinds = append(kinds, k)
			}
		}
		if len(kinds) == 0 {
			kinds = o.kinds
		}
	}
	return drawK(t, rapid.SampledFrom(kinds).Draw(t, "kind"), o)
}

func drawK(t *rapid.T, k K, o vOpts) *V {
	sub := o
	sub.depth--
	if sub.depth > 1 && rapid.IntRange(0, 3).Draw(t, "shallow") == 0 {
		sub.depth = 1
	}
	switch k {
	case kBool:
		return vBool(rapid.Bool().Draw(t, "b"))
	case kInt:
		return vInt(genInt().Draw(t, "i"))
	case kFloat:
		return vFloat(genFloat().Draw(t, "f"))
	case kString:
		return vStr(genStr(o.wideStr).Draw(t, "s"))
	case kBinary:
		return vBin(genBytes().Draw(t, "bin"))
	case kTime:
		return vTime(genTime().Draw(t, "t"))
	case kRegexp:
		return vRx(rapid.SampledFrom(rxPool).Draw(t, "rx"))
	case kSensitive:
		return vSens(drawV(t, sub))
	case kType:
		return vType(drawT(t, tOpts{depth: 2}))
	case kArray:
		n := rapid.IntRange(0, o.width).Draw(t, "len")
		if rapid.IntRange(0, 19).Draw(t, "many") == 7 {
			n = rapid.IntRange(o.width, 20).Draw(t, "many len")
			sub.depth = 1
		}
		a := &V{K: kArray}
		for i := 0; i < n; i++ {
			a.A = append(a.A, drawV(t, sub))
		}
		return a
	case kMap:
		n := rapid.IntRange(0, o.width).Draw(t, "len")
		if rapid.IntRange(0, 19).Draw(t, "many") == 7 {
			n = rapid.IntRange(o.width, 20).Draw(t, "many len")
			sub.depth = 1
		}
		m := &V{K: kMap}
		for i := 0; i < n; i++ {
			m.put(drawKey(t, o), drawV(t, sub))
		}
		return m
	}
	return vNil()
}

func drawKey(t *rapid.T, o vOpts) *V {
	ko := vOpts{kinds: o.keys, keys: []K{kString}, depth: 2, width: 2, wideStr: o.wideStr}
	return drawK(t, rapid.SampledFrom(o.keys).Draw(t, "keyKind"), ko)
}

// mutate returns a value that is close to v: sometimes an equal value built in another order, sometimes with one difference.
func drawNear(t *rapid.T, v *V, o vOpts) *V {
	c := v.clone()
	switch rapid.IntRange(0, 5).Draw(t, "near") {
	case 0: // equal, maps reordered
		shuffleMaps(t, c)
		return c
	case 1:
		return c
	}
	// one difference at a random node
	n := rapid.IntRange(0, c.nodes()-1).Draw(t, "node")
	var walk func(p **V)
	walk = func(p **V) {
		if n < 0 {
			return
		}
		if n == 0 {
			n--
			*p = tweak(t, *p, o)
			return
		}
		n--
		x := *p
		for i := range x.A {
			walk(&x.A[i])
		}
		for i := range x.MV {
			walk(&x.MV[i])
		}
		for i := range x.MK {
			// keys must remain unique
			k := x.MK[i].clone()
			walk(&k)
			if k.str() != x.MK[i].str() {
				ok := k.K == x.MK[i].K
				for _, kk := range o.keys {
					ok = ok || kk == k.K
				}
				if j := x.get(k); ok && j < 0 {
					x.MK[i] = k
				}
			}
		}
	}
	walk(&c)
	return c
}

func tweak(t *rapid.T, v *V, o vOpts) *V {
	switch v.K {
	case kInt:
		switch rapid.IntRange(0, 2).Draw(t, "tweak") {
		case 0:
			return vInt(v.I + 1)
		case 1:
			return vFloat(float64(v.I))
		}
		return vStr(fmt.Sprint(v.I))
	case kFloat:
		if v.F == math.Trunc(v.F) && math.Abs(v.F) < 1e15 {
			return vInt(int64(v.F))
		}
		return vFloat(math.Nextafter(v.F, 0))
	case kString:
		return rapid.SampledFrom([]*V{vStr(v.S + "x"), vBin([]byte(v.S)), vRx("x"), vArr(v), vStr(strings.ToUpper(v.S))}).Draw(t, "tweak")
	case kTime:
		return vTime(v.T.Add(1))
	case kBinary:
		return vBin(append(append([]byte{}, v.Y...), 0))
	case kArray:
		c := v.clone()
		switch rapid.IntRange(0, 3).Draw(t, "tweak") {
		case 0:
			c.A = append(c.A, vNil())
		case 1:
			if len(c.A) > 0 {
				c.A = c.A[:len(c.A)-1]
			} else {
				return vMap()
			}
		case 2:
			for i, j := 0, len(c.A)-1; i < j; i, j = i+1, j-1 {
				c.A[i], c.A[j] = c.A[j], c.A[i]
			}
		default:
			return vSens(c)
		}
		return c
	case kMap:
		c := v.clone()
		switch rapid.IntRange(0, 3).Draw(t, "tweak") {
		case 0:
			c.put(vStr("extra"), vNil())
		case 1:
			if len(c.MK) > 0 {
				c.MK, c.MV = c.MK[1:], c.MV[1:]
			} else {
				return vArr()
			}
		case 2:
			if len(c.MK) > 0 {
				c.MV[0] = vNil()
			}
		default:
			if len(c.MV) > 1 {
				c.MV[0], c.MV[1] = c.MV[1], c.MV[0]
			}
		}
		return c
	case kSensitive:
		return v.A[0]
	case kBool:
		return vBool(!v.B)
	}
	return drawV(t, vOpts{kinds: o.kinds, keys: o.keys, depth: 1, width: 2})
}

func shuffleMaps(t *rapid.T, v *V) {
	for _, l := range [][]*V{v.A, v.MK, v.MV} {
		for _, x := range l {
			shuffleMaps(t, x)
		}
	}
	if v.K == kMap && len(v.MK) > 1 {
		idx := make([]int, len(v.MK))
		for i := range idx {
			idx[i] = i
		}
		p := rapid.Permutation(idx).Draw(t, "perm")
		mk, mv := make([]*V, len(p)), make([]*V, len(p))
		for i, j := range p {
			mk[i], mv[i] = v.MK[j], v.MV[j]
		}
		v.MK, v.MV = mk, mv
	}
}

// ---- building ---------------------------------------------------------------------------------------------

// router chooses between alternative ways to construct the same value
type router func(n int) int

func drawRouter(t *rapid.T) router {
	return func(n int) int { return rapid.IntRange(0, n-1).Draw(t, "route") }
}

func fixedRoute(int) int { return 0 }

// build creates the dgo value for the model. It is frozen when the chosen route creates immutable values.
func build(v *V, r router) dgo.Value {
	switch v.K {
	case kNil:
		if r(2) == 0 {
			return vf.Nil
		}
		return vf.Value(nil)
	case kBool:
		if r(2) == 0 {
			return vf.Boolean(v.B)
		}
		return vf.Value(v.B)
	case kInt:
		switch r(3) {
		case 0:
			return vf.Integer(v.I)
		case 1:
			return vf.Value(v.I)
		}
		if v.I == int64(int16(v.I)) {
			return vf.Value(int16(v.I))
		}
		return vf.Value(int(v.I))
	case kFloat:
		switch r(3) {
		case 0:
			return vf.Float(v.F)
		case 1:
			return vf.Value(v.F)
		}
		if float64(float32(v.F)) == v.F {
			return vf.Value(float32(v.F))
		}
		return vf.Value(v.F)
	case kString:
		if r(2) == 0 {
			return vf.String(v.S)
		}
		return vf.Value(v.S)
	case kBinary:
		b := append([]byte{}, v.Y...)
		switch r(3) {
		case 0:
			return vf.Binary(b, true)
		case 1:
			return vf.Binary(b, false)
		}
		return vf.Value(b)
	case kTime:
		switch r(4) {
		case 0:
			return vf.Time(v.T)
		case 1:
			return vf.Time(v.T.In(tzOdd))
		case 2:
			return vf.Value(v.T.UTC())
		}
		return vf.Value(v.T)
	case kRegexp:
		if r(2) == 0 {
			return vf.Regexp(regexp.MustCompile(v.S))
		}
		return vf.Value(regexp.MustCompile(v.S))
	case kSensitive:
		return vf.Sensitive(build(v.A[0], r))
	case kType:
		return v.Tp.build()
	case kArray:
		return buildArray(v, r)
	case kMap:
		return buildMap(v, r)
	}
	panic("build")
}

func buildAll(vs []*V, r router) []interface{} {
	s := make([]interface{}, len(vs))
	for i, x := range vs {
		s[i] = build(x, r)
	}
	return s
}

func buildArray(v *V, r router) dgo.Array {
	route := r(7)
	s := buildAll(v.A, r)
	switch route {
	case 0:
		return vf.Values(s...)
	case 1:
		return vf.MutableValues(s...)
	case 2:
		a := vf.ArrayWithCapacity(len(s))
		for i := range s {
			a.Add(s[i])
		}
		return a
	case 3:
		return vf.Value(s).(dgo.Array)
	case 4:
		vs := make([]dgo.Value, len(s))
		for i := range s {
			vs[i] = s[i].(dgo.Value)
		}
		return vf.WrapSlice(vs)
	case 5:
		// typed go slices when possible
		if len(v.A) > 0 {
			allS, allI := true, true
			for _, x := range v.A {
				allS = allS && x.K == kString
				allI = allI && x.K == kInt
			}
			if allS {
				ss := make([]string, len(v.A))
				for i, x := range v.A {
					ss[i] = x.S
				}
				return vf.Strings(ss...)
			}
			if allI {
				is := make([]int, len(v.A))
				for i, x := range v.A {
					is[i] = int(x.I)
				}
				return vf.Integers(is...)
			}
		}
		return vf.Array(s)
	}
	a := vf.MutableValues(s...)
	a.Freeze()
	return a
}

func buildMap(v *V, r router) dgo.Map {
	route := r(6)
	ks := buildAll(v.MK, r)
	vs := buildAll(v.MV, r)
	kv := make([]interface{}, 0, len(ks)*2)
	for i := range ks {
		kv = append(kv, ks[i], vs[i])
	}
	switch route {
	case 0:
		return vf.Map(kv...)
	case 1:
		return vf.MutableMap(kv...)
	case 2:
		m := vf.MapWithCapacity(len(ks))
		for i := range ks {
			m.Put(ks[i], vs[i])
		}
		return m
	case 3:
		// a go map, only possible when all keys are strings
		gm := map[string]interface{}{}
		for i, k := range v.MK {
			if k.K != kString {
				return vf.Map(kv...)
			}
			gm[k.S] = vs[i]
		}
		if len(gm) == 0 {
			return vf.Map()
		}
		return vf.Value(gm).(dgo.Map)
	case 4:
		m := vf.MapWithCapacity(1)
		for i := range ks {
			m.Put(ks[i], vs[i])
		}
		m.Freeze()
		return m
	}
	return vf.MutableValues(kv...).ToMap()
}

// keepsOrder is false for the route that builds from a go map
// model reads a dgo value back into a model value using only elementary accessors.
func model(v dgo.Value) *V {
	switch v := v.(type) {
	case nil:
		return &V{K: kNil}
	case dgo.Nil:
		return vNil()
	case dgo.Boolean:
		return vBool(v.GoBool())
	case dgo.Integer:
		return vInt(v.GoInt())
	case dgo.Float:
		return vFloat(v.GoFloat())
	case dgo.String:
		return vStr(v.GoString())
	case dgo.Binary:
		return vBin(append([]byte{}, v.GoBytes()...))
	case dgo.Time:
		return vTime(v.GoTime())
	case dgo.Regexp:
		return vRx(v.GoRegexp().String())
	case dgo.Sensitive:
		return vSens(model(v.Unwrap()))
	case dgo.Array:
		a := &V{K: kArray}
		for i, n := 0, v.Len(); i < n; i++ {
			a.A = append(a.A, model(v.Get(i)))
		}
		return a
	case dgo.Map:
		m := &V{K: kMap}
		v.EachEntry(func(e dgo.MapEntry) {
			m.MK = append(m.MK, model(e.Key()))
			m.MV = append(m.MV, model(e.Value()))
		})
		return m
	case dgo.Type:
		return &V{K: kType, S: v.String()}
	}
	if e, ok := v.(error); ok {
		return &V{K: kString, S: "<error " + e.Error() + ">"}
	}
	return &V{K: kString, S: fmt.Sprintf("<%T>", v)}
}

// sameOrdered says if the models are equal including the order of map entries
func sameOrdered(a, b *V) bool {
	if !refEq(a, b) {
		return false
	}
	switch a.K {
	case kSensitive, kArray:
		for i := range a.A {
			if !sameOrdered(a.A[i], b.A[i]) {
				return false
			}
		}
	case kMap:
		for i := range a.MK {
			if !sameOrdered(a.MK[i], b.MK[i]) || !sameOrdered(a.MV[i], b.MV[i]) {
				return false
			}
		}
	}
	return true
}

func sortedCopy(ss []string) []string {
	c := append([]string(nil), ss...)
	sort.Strings(c)
	return c
}
