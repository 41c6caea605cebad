package props

import (
	"math"
	"regexp"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// inexpressible tells if the type language has no form for a type: sized binaries, times, regexps, an empty tuple
// (its text means an empty map), and a sensitive of one exact value (sensitive[<value>] is rejected by design)
func inexpressible(t *T) bool {
	return t.has(func(x *T) bool {
		switch x.K {
		case tBinarySized, tTime, tRegexp:
			return true
		case tTuple:
			return len(x.E) == 0
		case tSensitive:
			return len(x.E) > 0 && dgo.IsExact(x.E[0].build())
		case tFloatRange:
			return math.IsInf(x.FMin, 0) || math.IsInf(x.FMax, 0)
		case tExact:
			return x.V.has(func(v *V) bool {
				switch v.K {
				case kFloat:
					return math.IsNaN(v.F) || math.IsInf(v.F, 0)
				case kArray:
					return len(v.A) == 0
				case kNil, kBool, kInt, kString, kMap:
					return false
				}
				return true
			})
		}
		return false
	})
}

// escapedPattern tells if the type contains a pattern that needs an escape in its text, see known finding pattern-escape
func escapedPattern(t *T) bool {
	return t.has(func(x *T) bool {
		return x.K == tPattern && strings.ContainsAny(x.S, "\\\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f")
	})
}

func parseT(s string) (ty dgo.Type, p *caught) {
	p = catch(func() { ty = tf.ParseType(s) })
	return
}

func checkTypeText(c *C, ty dgo.Type, what string, values []dgo.Value) {
	text := ty.String()
	pt, p := parseT(text)
	if p != nil {
		c.Fatalf("the text %s of %s cannot be parsed: %s", text, what, p)
	}
	if !pt.Equals(ty) || !ty.Equals(pt) {
		c.Fatalf("the text %s of %s parses to %s which isn't equal to it", text, what, pt)
	}
	if pt.HashCode() != ty.HashCode() {
		c.Fatalf("the text %s of %s parses to a type with another hash code", text, what)
	}
	if t2 := pt.String(); t2 != text {
		c.Fatalf("the text %s of %s parses to a type with the text %s", text, what, t2)
	}
	for _, v := range values {
		if pt.Instance(v) != ty.Instance(v) {
			c.Fatalf("the text %s of %s parses to a type that differs in whether %s is an instance: %v", text, what, v, pt.Instance(v))
		}
	}
}

func TestP11_Text(t *testing.T) {
	known(t, "pattern-escape", func() string {
		ty := tf.Pattern(regexp.MustCompile(`^\d$`))
		if pt, p := parseT(ty.String()); p == nil && pt.Equals(ty) {
			return ""
		}
		return "the text of a pattern type doubles backslashes, " + ty.String() + " does not parse to the same pattern"
	})
	prop(t, 40000, "a type and values that are instances or near misses; non-trivial for ranges, sizes, exact, nested and combined types", func(c *C) {
		a := drawT(c.T, tOpts{depth: 4, wideStrs: true, excl: []TK{tBinarySized, tTime, tRegexp}, exactKs: []K{kNil, kBool, kInt, kFloat, kString, kArray, kMap}})
		if inexpressible(a) || escapedPattern(a) {
			c.Class("no text form")
			return
		}
		ty := a.build()
		var vs []dgo.Value
		for i := 0; i < 3; i++ {
			if v := drawCandidate(c.T, a); v != nil {
				vs = append(vs, build(v, fixedRoute))
			}
		}
		checkTypeText(c, ty, a.str(), vs)
		switch a.K {
		case tIntRange, tFloatRange, tStringSized, tPattern, tCi:
			c.Class(tkNames[a.K])
			c.NonTrivial(a.str())
		default:
			if a.K >= tExact {
				c.Class(tkNames[a.K])
				c.NonTrivial(a.str())
			}
		}
	})
}

// TestP11_Values checks types of values
func TestP11_Values(t *testing.T) {
	prop(t, 10000, "a value and the text of its type; non-trivial for collections", func(c *C) {
		v := drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString, kInt, kBool, kFloat, kNil, kArray}, depth: 4, width: 3, wideStr: true})
		if inexpressible(tExactOf(v)) {
			c.Class("no text form")
			return
		}
		dv := build(v, drawRouter(c.T))
		text := dv.Type().String()
		pt, p := parseT(text)
		if p != nil {
			c.Fatalf("the text %s of the type of %s cannot be parsed: %s", text, v.str(), p)
		}
		if !pt.Instance(dv) || !pt.Equals(dv.Type()) || !dv.Type().Equals(pt) {
			c.Fatalf("the text %s of the type of %s parses to %s", text, v.str(), pt)
		}
		if v.K == kArray || v.K == kMap {
			c.NonTrivial(v.str())
		}
	})
}

func TestP11_Extremes(t *testing.T) {
	tys := []dgo.Type{
		tf.Integer(math.MinInt64, math.MaxInt64, false), tf.Integer(0, math.MaxInt64, false), tf.Integer(math.MinInt64, 0, false),
		tf.Float(-math.MaxFloat64, math.MaxFloat64, false), tf.Float(0, math.MaxFloat64, false), tf.Float(-math.MaxFloat64, 0, false),
		tf.Float(1e21, 1e22, true), tf.Float(1e-21, 1e-20, false), tf.ParseType(`data`), tf.Array(tf.ParseType(`data`)), tf.Not(tf.Not(typ.Integer)),
		typ.DgoString, tf.Meta(typ.Type), tf.Meta(tf.Meta(typ.Type)), typ.Type, vf.Value(math.Copysign(0, -1)).Type(),
	}
	prop(t, 500, "types with extreme bounds and built-in types; always non-trivial", func(c *C) {
		ty := rapid.SampledFrom(tys).Draw(c.T, "type")
		if rapid.Bool().Draw(c.T, "nested") {
			ty = tf.Map(ty, tf.AnyOf(tf.Tuple(ty, ty), ty))
		}
		checkTypeText(c, ty, ty.String(), []dgo.Value{vf.Value(0), vf.Value(math.MaxInt64), vf.Value(math.MaxFloat64), vf.Value(1e21), vf.Value("a"), typ.String})
		c.NonTrivial(ty.String())
	})
}
