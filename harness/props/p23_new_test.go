package props

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// verdict of the reference for a conversion
const (
	rejects = iota
	yields
	unspecified
)

// factory tells what constructor a type uses; kType for none
func factory(t *T) K {
	switch t.K {
	case tBool:
		return kBool
	case tInt, tIntRange:
		return kInt
	case tFloat, tFloatRange:
		return kFloat
	case tString, tStringSized, tPattern, tCi:
		return kString
	case tBinary, tBinarySized:
		return kBinary
	case tTime:
		return kTime
	case tArray, tTuple, tVarTuple:
		return kArray
	case tMap, tStruct:
		return kMap
	case tSensitive:
		return kSensitive
	case tExact:
		switch t.V.K {
		case kNil, kRegexp, kType:
			return kType
		}
		return t.V.K
	}
	return kType
}

var intTexts = map[int]*regexp.Regexp{
	2:  regexp.MustCompile(`\A[+-]?[01]+\z`),
	8:  regexp.MustCompile(`\A[+-]?[0-7]+\z`),
	10: regexp.MustCompile(`\A[+-]?[0-9]+\z`),
	16: regexp.MustCompile(`\A[+-]?[0-9a-fA-F]+\z`),
}

// refInt returns the integer denoted by a text
func refInt(s string, radix int) (*V, int) {
	if !intTexts[radix].MatchString(s) {
		return nil, rejects
	}
	n, ok := new(big.Int).SetString(s, radix)
	if !ok || !n.IsInt64() {
		return nil, rejects
	}
	return vInt(n.Int64()), yields
}

func inIntRange(f float64) bool { return f >= -0x1p63 && f < 0x1p63 }

// refNew is the reference for the creation of a value by the constructor of the given kind, before the check that the value
// is an instance of the type. The text is what the value v is printed as.
func refNew(k K, v *V, text string) (*V, int) {
	if v.K == k && k != kArray && k != kMap {
		return v, yields
	}
	switch k {
	case kBool:
		switch v.K {
		case kInt:
			return vBool(v.I != 0), yields
		case kFloat:
			return vBool(v.F != 0), yields
		case kString:
			switch strings.ToLower(v.S) {
			case "true", "yes", "y":
				return vBool(true), yields
			case "false", "no", "n":
				return vBool(false), yields
			}
		}
	case kInt:
		switch v.K {
		case kBool:
			if v.B {
				return vInt(1), yields
			}
			return vInt(0), yields
		case kFloat:
			if inIntRange(v.F) {
				return vInt(int64(math.Trunc(v.F))), yields
			}
		case kTime:
			return vInt(v.T.Unix()), yields
		case kString:
			return refInt(v.S, 10)
		}
	case kFloat:
		switch v.K {
		case kBool:
			if v.B {
				return vFloat(1), yields
			}
			return vFloat(0), yields
		case kInt:
			return vFloat(float64(v.I)), yields
		case kTime:
			return nil, unspecified // see TestP23_Time
		case kString:
			if f, _, err := big.ParseFloat(v.S, 10, 2000, big.ToNearestEven); err == nil && !strings.ContainsAny(v.S, "_pPnN") {
				if x, _ := f.Float64(); !math.IsInf(x, 0) {
					return vFloat(x), yields
				}
			}
			if !strings.ContainsAny(v.S, "0123456789") && !strings.Contains(strings.ToLower(v.S), "n") {
				return nil, rejects
			}
			return nil, unspecified
		}
	case kString:
		return vStr(text), yields
	case kBinary:
		switch v.K {
		case kString:
			return refDecode(v.S, "%B")
		case kArray:
			bs := []byte{}
			for _, e := range v.A {
				if e.K != kInt || e.I < 0 || e.I > 255 {
					return nil, rejects
				}
				bs = append(bs, byte(e.I))
			}
			return vBin(bs), yields
		}
	case kTime:
		switch v.K {
		case kInt:
			return vTime(time.Unix(v.I, 0)), yields
		case kFloat:
			if !inIntRange(v.F) {
				return nil, rejects
			}
			return nil, unspecified // see TestP23_Time
		case kString:
			if x, err := time.Parse(time.RFC3339, v.S); err == nil {
				return vTime(x), yields
			}
		}
	case kSensitive:
		return vSens(v), yields
	case kArray:
		switch v.K {
		case kArray:
			return v, yields
		}
		return nil, unspecified // an array of the entries for a map
	case kMap:
		switch v.K {
		case kMap:
			return v, yields
		case kArray:
			if len(v.A)%2 != 0 {
				return nil, rejects
			}
			m := vMap()
			for i := 0; i < len(v.A); i += 2 {
				m.put(v.A[i], v.A[i+1])
			}
			return m, yields
		}
	}
	return nil, rejects
}

// refDecode is the reference for the decoding of a binary
func refDecode(s, enc string) (*V, int) {
	switch enc {
	case "%r":
		return vBin([]byte(s)), yields
	case "%s":
		if utf8.ValidString(s) {
			return vBin([]byte(s)), yields
		}
		return nil, rejects
	}
	// decode quantum by quantum, independent of the decoders of the standard library
	alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	if enc == "%u" {
		alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	}
	s = strings.NewReplacer("\r", "", "\n", "").Replace(s)
	if len(s)%4 != 0 {
		return nil, rejects
	}
	out := []byte{}
	for i := 0; i < len(s); i += 4 {
		q := s[i : i+4]
		n := 4
		if i+4 == len(s) {
			n = len(strings.TrimSuffix(strings.TrimSuffix(q, "="), "="))
		}
		acc := 0
		for j := 0; j < 4; j++ {
			x := 0
			if j < n {
				if x = strings.IndexByte(alpha, q[j]); x < 0 {
					return nil, rejects
				}
			}
			acc = acc<<6 | x
		}
		bs := []byte{byte(acc >> 16), byte(acc >> 8), byte(acc)}
		if n < 2 {
			return nil, rejects
		}
		if enc == "%B" && (n == 2 && (bs[1] != 0 || bs[2] != 0) || n == 3 && bs[2] != 0) {
			return nil, rejects // strict: trailing bits must be zero
		}
		out = append(out, bs[:n-1]...)
	}
	return vBin(out), yields
}

// drawArgument draws an argument for a constructor
func drawArgument(c *C, t *T) *V {
	switch rapid.IntRange(0, 9).Draw(c.T, "argument") {
	case 0, 1:
		if m := drawMember(c.T, t, 3); m != nil {
			return m
		}
		return drawV(c.T, richOpts(3))
	case 2:
		return drawCandidate(c.T, t)
	case 3:
		return drawV(c.T, richOpts(3))
	}
	// something to convert into a member
	m := drawMember(c.T, t, 3)
	if m == nil {
		return drawV(c.T, richOpts(3))
	}
	switch m.K {
	case kBool:
		b := rapid.SampledFrom([][]string{{"true", "yes", "y"}, {"false", "no", "n"}}).Draw(c.T, "texts")
		if m.B == (b[0] == "true") || rapid.Bool().Draw(c.T, "any") {
			s := []byte(rapid.SampledFrom(b).Draw(c.T, "text"))
			for i := range s {
				if rapid.Bool().Draw(c.T, "upper") {
					s[i] -= 32
				}
			}
			return vStr(string(s))
		}
		return rapid.SampledFrom([]*V{vInt(0), vInt(1), vInt(-4), vFloat(0), vFloat(math.Copysign(0, -1)), vFloat(0.5), vFloat(math.NaN())}).Draw(c.T, "number")
	case kInt:
		switch rapid.IntRange(0, 5).Draw(c.T, "from") {
		case 0:
			return vFloat(float64(m.I) + rapid.SampledFrom([]float64{0, 0, 0.5, -0.5, 0.999}).Draw(c.T, "frac"))
		case 1:
			return vTime(time.Unix(m.I, rapid.Int64Range(0, 999999999).Draw(c.T, "ns")))
		case 2:
			return vBool(rapid.Bool().Draw(c.T, "b"))
		case 3:
			return rapid.SampledFrom([]*V{vFloat(math.NaN()), vFloat(math.Inf(1)), vFloat(1e30), vFloat(-0x1p63), vFloat(0x1p63), vFloat(9223372036854774784), vStr("9223372036854775808"),
				vStr("-9223372036854775808"), vStr("+5"), vStr("--5"), vStr("5 "), vStr(""), vStr("0x10"), vStr("1_0"), vStr("012"), vStr("1e3")}).Draw(c.T, "edge")
		}
		return vStr(strconv.FormatInt(m.I, 10))
	case kFloat:
		switch rapid.IntRange(0, 3).Draw(c.T, "from") {
		case 0:
			return vInt(int64(math.Max(-1e18, math.Min(1e18, m.F))))
		case 1:
			return vBool(rapid.Bool().Draw(c.T, "b"))
		case 2:
			return vTime(drawTime(c))
		}
		return vStr(strconv.FormatFloat(m.F, rapid.SampledFrom([]byte("efg")).Draw(c.T, "fmt"), -1, 64))
	case kString:
		if i, err := strconv.ParseInt(m.S, 10, 64); err == nil {
			return vInt(i)
		}
		return drawV(c.T, richOpts(2))
	case kBinary:
		if rapid.Bool().Draw(c.T, "array") {
			a := vArr()
			for _, b := range m.Y {
				a.A = append(a.A, vInt(int64(b)))
			}
			if len(a.A) > 0 && rapid.IntRange(0, 4).Draw(c.T, "spoil") == 0 {
				a.A[rapid.IntRange(0, len(a.A)-1).Draw(c.T, "at")] = rapid.SampledFrom([]*V{vInt(256), vInt(-1), vStr("a"), vNil(), vFloat(3), vInt(1 << 32)}).Draw(c.T, "bad")
			}
			return a
		}
		return vStr(base64.StdEncoding.EncodeToString(m.Y))
	case kTime:
		switch rapid.IntRange(0, 2).Draw(c.T, "from") {
		case 0:
			return vInt(m.T.Unix())
		case 1:
			return vFloat(float64(m.T.Unix()))
		}
		return vStr(m.T.Format(time.RFC3339Nano))
	case kSensitive:
		return m.A[0]
	case kArray:
		if len(m.A)%2 == 0 && rapid.Bool().Draw(c.T, "map") {
			x := vMap()
			for i := 0; i < len(m.A); i += 2 {
				x.put(m.A[i], m.A[i+1])
			}
			return x
		}
	case kMap:
		a := vArr()
		for i := range m.MK {
			a.A = append(a.A, m.MK[i], m.MV[i])
		}
		if rapid.IntRange(0, 5).Draw(c.T, "odd") == 0 {
			a.A = append(a.A, vInt(1))
		}
		return a
	}
	return m
}

func drawTime(c *C) time.Time { return genTime().Draw(c.T, "time") }

// TestP23_Types creates values of arbitrary types
func TestP23_Types(t *testing.T) {
	prop(t, 40000, "a type and an argument to create a value from; non-trivial when a conversion is needed and yields an instance, or when the converted value isn't an instance", func(c *C) {
		ty := drawT(c.T, tOpts{depth: 3, vDepth: 2, excl: []TK{tMeta, tFunc}})
		if rapid.IntRange(0, 2).Draw(c.T, "simple") > 0 {
			ks := []TK{tBool, tInt, tIntRange, tFloat, tFloatRange, tString, tStringSized, tPattern, tCi, tBinary, tBinarySized, tTime, tExact, tArray, tTuple, tVarTuple, tMap, tStruct, tSensitive}
			ty = drawTK(c.T, rapid.SampledFrom(ks).Draw(c.T, "kind"), tOpts{depth: 2, vDepth: 2, excl: []TK{tMeta, tFunc}})
		}
		v := drawArgument(c, ty)
		if nonASCIISized(ty, v) {
			return
		}
		k := factory(ty)
		dt := ty.build()
		dv := build(v, drawRouter(c.T))
		what := fmt.Sprintf("new %s from %s", ty.str(), v.str())
		var arg dgo.Value = dv
		switch rapid.IntRange(0, 5).Draw(c.T, "arguments") {
		case 0, 1:
			arg = vf.Arguments(dv)
			what += " in arguments"
		case 2:
			n := rapid.SampledFrom([]int{0, 3, 4}).Draw(c.T, "count")
			xs := make([]interface{}, n)
			for i := range xs {
				xs[i] = dv
			}
			var r dgo.Value
			p := catch(func() { r = vf.New(dt, vf.Arguments(xs...)) })
			if p == nil {
				c.Fatalf("%s: %d arguments are accepted: %v", what, n, r)
			}
			if p.runtimeErr() {
				c.Fatalf("%s: %d arguments: %v\n%s", what, n, p, p.stack)
			}
			c.Class("count")
			return
		}
		c.Doing("%s", what)
		before := model(dv)
		want, verdict := v, rejects
		if k == kType {
			if member(ty, v) {
				verdict = yields
			}
		} else {
			text := v.S
			if v.K != kString {
				text = dv.String()
			}
			want, verdict = refNew(k, v, text)
			if verdict == yields {
				if nonASCIISized(ty, want) {
					return
				}
				if !member(ty, want) {
					verdict = rejects
					c.NonTrivial("not an instance: " + what)
				}
			}
		}
		var r dgo.Value
		p := catch(func() { r = vf.New(dt, arg) })
		if p != nil {
			if p.runtimeErr() {
				c.Fatalf("%s: %v\n%s", what, p, p.stack)
			}
			if verdict == yields {
				c.Fatalf("%s: %v, expected %s", what, p, want.str())
			}
			c.Class("reject %s", kNames[k])
			return
		}
		if !dt.Instance(r) {
			c.Fatalf("%s: %v isn't an instance", what, r)
		}
		m := model(r)
		if k == kArray && v.K == kMap {
			a := r.(dgo.Array)
			for i := range v.MK {
				if e, ok := a.Get(i).(dgo.MapEntry); a.Len() != len(v.MK) || !ok || dv.(dgo.Map).Get(e.Key()) == nil || !e.Value().Equals(dv.(dgo.Map).Get(e.Key())) {
					c.Fatalf("%s: yields %s", what, r)
				}
			}
			c.Class("entries")
		}
		switch verdict {
		case rejects:
			c.Fatalf("%s: yields %s, expected an error", what, m.str())
		case yields:
			if nan := want.K == kFloat && want.F != want.F && m.F != m.F; !nan && (!r.Equals(build(want, fixedRoute)) || !refEq(m, want)) && m.str() != want.str() {
				c.Fatalf("%s: yields %s, expected %s", what, m.str(), want.str())
			}
			if v.K != want.K {
				c.NonTrivial(what)
				c.Class("%s from %s", kNames[want.K], kNames[v.K])
			} else {
				c.Class("same %s", kNames[want.K])
			}
		}
		if model(dv).str() != before.str() {
			c.Fatalf("%s: changes the argument to %s", what, dv)
		}
		if k == kArray || k == kMap {
			if x := notFrozen(r); x != nil {
				c.Fatalf("%s: yields %s with a part that isn't frozen: %s", what, r, x)
			}
		}
		again := catch(func() {
			if r2 := vf.New(dt, r); !r2.Equals(r) && model(r).str() != model(r2).str() {
				c.Fatalf("%s: yields %s, a new value from that is %s", what, r, r2)
			}
		})
		if again != nil {
			c.Fatalf("%s: no new value can be created from its result %s: %v", what, r, again)
		}
	})
}

// TestP23_Text creates values from texts together with a radix, a format, or an encoding
func TestP23_Text(t *testing.T) {
	prop(t, 20000, "a value created from a text and a radix or an encoding, or a text created using a format; non-trivial when created", func(c *C) {
		create := func(what string, ty dgo.Type, args ...interface{}) (dgo.Value, bool) {
			var r dgo.Value
			p := catch(func() { r = vf.New(ty, vf.Arguments(args...)) })
			if p != nil && p.runtimeErr() {
				c.Fatalf("%s: %v\n%s", what, p, p.stack)
			}
			return r, p == nil
		}
		expect := func(what string, ty dgo.Type, want *V, verdict int, args ...interface{}) {
			r, ok := create(what, ty, args...)
			if !ok {
				if verdict == yields {
					c.Fatalf("%s is rejected, expected %s", what, want.str())
				}
				c.Class("reject")
				return
			}
			if verdict == rejects {
				c.Fatalf("%s yields %v, expected an error", what, r)
			}
			if !refEq(model(r), want) {
				c.Fatalf("%s yields %v, expected %s", what, r, want.str())
			}
			c.NonTrivial(what)
		}
		switch rapid.IntRange(0, 4).Draw(c.T, "what") {
		case 0: // radix
			radix := rapid.SampledFrom([]int{2, 8, 10, 16}).Draw(c.T, "radix")
			n := genInt().Draw(c.T, "n")
			s := strconv.FormatInt(n, rapid.SampledFrom([]int{radix, radix, radix, 16, 10}).Draw(c.T, "textRadix"))
			switch rapid.IntRange(0, 7).Draw(c.T, "twist") {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s = "+" + s
			case 2:
				s = rapid.SampledFrom([]string{"0x", "0b", "0o", "0", "-", " ", "_"}).Draw(c.T, "prefix") + s
			case 3:
				s += rapid.StringMatching(`[0-9a-gA-G_. ]{1,20}`).Draw(c.T, "suffix")
			}
			bad := rapid.IntRange(0, 15).Draw(c.T, "badRadix")
			if bad == 0 {
				radix = rapid.SampledFrom([]int{0, 1, 3, 7, 12, 36, 37, -10}).Draw(c.T, "other")
				expect(fmt.Sprintf("int from %q, radix %d", s, radix), typ.Integer, nil, rejects, s, radix)
				return
			}
			want, verdict := refInt(s, radix)
			c.Class("radix %d", radix)
			expect(fmt.Sprintf("int from %q, radix %d", s, radix), typ.Integer, want, verdict, s, radix)
		case 1: // encoding
			bs := genBytes().Draw(c.T, "bytes")
			var s string
			switch rapid.IntRange(0, 3).Draw(c.T, "text") {
			case 0:
				s = base64.StdEncoding.EncodeToString(bs)
			case 1:
				s = base64.URLEncoding.EncodeToString(bs)
			case 2:
				s = string(bs)
			case 3:
				s = genStr(true).Draw(c.T, "s")
			}
			if rapid.IntRange(0, 3).Draw(c.T, "twist") == 0 && len(s) > 0 {
				i := rapid.IntRange(0, len(s)-1).Draw(c.T, "at")
				s = s[:i] + rapid.SampledFrom([]string{"=", "A", "/", "_", "\n", "", "é", "B="}).Draw(c.T, "with") + s[i+1:]
			}
			enc := rapid.SampledFrom([]string{"%B", "%b", "%u", "%s", "%r", "%x", "", "b"}).Draw(c.T, "enc")
			want, verdict := (*V)(nil), rejects
			if len(enc) == 2 && enc != "%x" {
				want, verdict = refDecode(s, enc)
			}
			c.Class("encoding %s", enc)
			expect(fmt.Sprintf("binary from %q, encoding %s", s, enc), typ.Binary, want, verdict, s, enc)
			p := catch(func() {
				if b := vf.BinaryFromEncoded(s, enc); verdict != yields || !refEq(model(b), want) {
					c.Fatalf("BinaryFromEncoded(%q, %q) yields %v", s, enc, b)
				}
			})
			if p != nil && (p.runtimeErr() || verdict == yields) {
				c.Fatalf("BinaryFromEncoded(%q, %q): %v", s, enc, p)
			}
		case 2: // format
			v := drawK(c.T, rapid.SampledFrom([]K{kBool, kInt, kFloat, kString}).Draw(c.T, "kind"), dataOpts(1))
			f := rapid.StringMatching(`%[ +#0-]{0,2}([1-9][0-9]?)?(\.[0-9])?[a-zA-Z]`).Draw(c.T, "format")
			if rapid.IntRange(0, 9).Draw(c.T, "badFormat") == 0 {
				f = rapid.SampledFrom([]string{"", "%", "d", "%d%d", " %d", "%d ", "%*d", "%5", "%é"}).Draw(c.T, "other")
				expect(fmt.Sprintf("string from %s, format %q", v.str(), f), typ.String, nil, rejects, build(v, fixedRoute), f)
				return
			}
			c.Class("format %s", kNames[v.K])
			expect(fmt.Sprintf("string from %s, format %q", v.str(), f), typ.String, vStr(fmt.Sprintf(f, goNative(v))), yields, build(v, fixedRoute), f)
		case 3: // type text
			ty := drawT(c.T, tOpts{depth: 3, vDepth: 2})
			if inexpressible(ty) || escapedPattern(ty) {
				return
			}
			dt := ty.build()
			what := fmt.Sprintf("type from %q", dt.String())
			r, ok := create(what, typ.Any.Type(), dt.String())
			if pt, q := parseT(dt.String()); !ok || q != nil || !r.Equals(pt) {
				c.Fatalf("%s yields %v", what, r)
			}
			if r, ok = create(what, typ.Any.Type(), dt); !ok || r != dt {
				c.Fatalf("type from the type %s yields %v", dt, r)
			}
			other := drawT(c.T, tOpts{depth: 2, vDepth: 1}).build()
			r, ok = create(what, other.Type(), dt)
			if ok != other.Type().Instance(dt) {
				c.Fatalf("a new %s from %s: yields %v", other.Type(), dt, r)
			}
			c.Class("type")
			c.NonTrivial(what)
		case 4: // too many arguments, wrong kind of extra argument
			v := drawScalar(c.T)
			dv := build(v, fixedRoute)
			for _, ty := range []dgo.Type{typ.Float, typ.Boolean, typ.Time, typ.Sensitive, typ.Array, typ.Map, typ.Any, typ.Any.Type(), tf.Tuple(typ.Any), typ.String, typ.Integer, typ.Binary} {
				what := fmt.Sprintf("new %s from %s and a list", ty, v.str())
				if r, ok := create(what, ty, dv, vf.Values(1)); ok {
					c.Fatalf("%s yields %s", what, r)
				}
			}
			c.Class("two arguments")
		}
	})
}

// TestP23_Time creates times from numbers and numbers from times
func TestP23_Time(t *testing.T) {
	prop(t, 10000, "a time and a number of seconds; non-trivial when it has a fraction", func(c *C) {
		tm := drawTime(c)
		tv := vf.Time(tm)
		f := vf.New(typ.Float, tv).(dgo.Float).GoFloat()
		exact, _ := new(big.Rat).Add(new(big.Rat).SetInt64(tm.Unix()), big.NewRat(int64(tm.Nanosecond()), 1e9)).Float64()
		if d := math.Abs(f - exact); d > 1e-6 && d > math.Abs(exact)*1e-15 {
			c.Fatalf("float from %s is %v, expected %v", tv, f, exact)
		}
		if i := vf.New(typ.Integer, tv).(dgo.Integer).GoInt(); i != tm.Unix() {
			c.Fatalf("int from %s is %d", tv, i)
		}
		if y := tm.Year(); y >= 0 && y <= 9999 {
			// texts: the time in its own zone and, when the zone can be expressed, an equal time
			text := tm.Format(time.RFC3339Nano)
			if rapid.Bool().Draw(c.T, "mangled") {
				i := rapid.IntRange(0, len(text)-1).Draw(c.T, "at")
				text = text[:i] + rapid.SampledFrom([]string{"", "0", "9", "-", "T", "Z", "x"}).Draw(c.T, "by") + text[i+1:]
			}
			c.Doing("time from the text %s", text)
			want, err := time.Parse(time.RFC3339Nano, text)
			var a, b dgo.Time
			pa, pb := catch(func() { a = vf.TimeFromString(text) }), catch(func() { b = vf.New(typ.Time, vf.String(text)).(dgo.Time) })
			if (err != nil) != (pa != nil) || (err != nil) != (pb != nil) || pa != nil && pa.runtimeErr() || pb != nil && pb.runtimeErr() {
				c.Fatalf("time from the text %s: error %v, but TimeFromString panics %v and New %v", text, err, pa, pb)
			}
			if err == nil && (!a.GoTime().Equal(want) || !b.GoTime().Equal(want) || !a.Equals(b) || !a.Equals(want)) {
				c.Fatalf("time from the text %s: %s and %s, expected %s", text, a, b, want)
			}
			c.Class("text parsed %v", err == nil)
		}
		x := genFloat().Draw(c.T, "seconds")
		if rapid.Bool().Draw(c.T, "near") {
			x = rapid.Float64Range(-6e10, 2e11).Draw(c.T, "near seconds")
		} else if rapid.IntRange(0, 4).Draw(c.T, "edge") == 0 {
			x = rapid.SampledFrom([]float64{-1 << 63, 1 << 63, math.Nextafter(1<<63, 0), math.Nextafter(-1<<63, math.Inf(-1)), 1e19, -1e19,
				math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64}).Draw(c.T, "edge seconds")
		}
		if !inIntRange(x) {
			if p := catch(func() { tv = vf.New(typ.Time, vf.Float(x)).(dgo.Time) }); p == nil || p.runtimeErr() {
				c.Fatalf("time from %v is %s, %v", x, tv, p)
			}
			c.Class("out of range")
			return
		}
		s := math.Floor(x)
		ns := (x - s) * 1e9
		got := vf.New(typ.Time, vf.Float(x)).(dgo.Time).GoTime()
		if d := float64(got.Unix()-int64(s))*1e9 + float64(got.Nanosecond()) - ns; d < -2 || d > 2 {
			c.Fatalf("time from %v is %s, %d and %d nanoseconds, expected %v and %v", x, got, got.Unix(), got.Nanosecond(), s, ns)
		}
		if got.Nanosecond() != 0 || tm.Nanosecond() != 0 {
			c.NonTrivial(fmt.Sprint(tm.UnixNano(), x))
		}
		c.Class("year %d..", got.Year()/1000*1000)
	})
}
