package props

import (
	"math"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// p09excl are the kinds that are left out: one-of and not have known findings, meta and function types have no instances
// among the model values.
var p09excl = []TK{tOneOf, tNot, tMeta, tFunc}

func p09opts(depth int) tOpts { return tOpts{depth: depth, excl: p09excl, wideStrs: false} }

// drawNarrow draws a type that documented narrowing makes at least as restrictive as the given type.
func drawNarrow(t *rapid.T, a *T, depth int) *T {
	if rapid.IntRange(0, 7).Draw(t, "same") == 0 || dgo.IsExact(a.build()) {
		return a.clone() // the type of one value has nothing narrower
	}
	if depth > 0 && rapid.IntRange(0, 7).Draw(t, "alternatives") == 0 {
		return &T{K: tAnyOf, E: []*T{drawNarrow(t, a, depth-1), drawNarrow(t, a, depth-1)}}
	}
	exact := func() *T {
		if m := drawMember(t, a, 2); m != nil && !m.has(func(v *V) bool { return v.K == kSensitive }) {
			return tExactOf(m)
		}
		return a.clone()
	}
	each := func(es []*T) []*T {
		r := make([]*T, len(es))
		for i := range es {
			r[i] = drawNarrow(t, es[i], depth-1)
		}
		return r
	}
	size := func(c *T) {
		if c.Max == unbounded {
			if rapid.Bool().Draw(t, "bound") {
				c.Max = c.Min + rapid.Int64Range(0, 4).Draw(t, "max")
			}
		}
		if c.Max > c.Min {
			c.Min += rapid.Int64Range(0, min64(2, c.Max-c.Min)).Draw(t, "min")
		}
		if c.Max > c.Min && c.Max != unbounded {
			c.Max -= rapid.Int64Range(0, c.Max-c.Min).Draw(t, "less")
		}
	}
	pick := func(fs ...func() *T) *T {
		return rapid.SampledFrom(fs).Draw(t, "narrow")()
	}
	switch a.K {
	case tAny:
		return drawT(t, p09opts(2))
	case tNil, tTime, tRegexp, tBool:
		return exact()
	case tInt:
		return pick(exact, func() *T { return drawTK(t, tIntRange, p09opts(1)) })
	case tIntRange:
		return pick(exact, func() *T {
			c := a.clone()
			last := a.Max
			if !a.Incl {
				last--
			}
			if c.Min < last {
				if n := c.Min + rapid.Int64Range(0, 5).Draw(t, "min"); n >= c.Min && n <= last {
					c.Min = n
				}
			}
			if n := last - rapid.Int64Range(0, 5).Draw(t, "max"); n <= last && n >= c.Min {
				last = n
			}
			c.Max, c.Incl = last, true
			if last > c.Min && last < math.MaxInt64-1 && rapid.Bool().Draw(t, "excl") {
				c.Max, c.Incl = last+1, false
			}
			return c
		})
	case tFloat:
		return pick(exact, func() *T { return drawTK(t, tFloatRange, p09opts(1)) })
	case tFloatRange:
		return pick(exact, func() *T {
			c := a.clone()
			if c.FMin < c.FMax {
				c.FMin = rapid.Float64Range(a.FMin, a.FMax).Draw(t, "fmin")
				if rapid.Bool().Draw(t, "fmax") {
					c.FMax = rapid.Float64Range(c.FMin, a.FMax).Draw(t, "fmaxv")
				}
				if c.FMax < a.FMax {
					c.Incl = rapid.Bool().Draw(t, "incl")
				} else if c.Incl {
					c.Incl = c.FMax == math.MaxFloat64 || rapid.Bool().Draw(t, "incl")
				}
				if c.FMin == c.FMax {
					c.Incl = true
					if !a.Incl && c.FMax == a.FMax {
						return a.clone()
					}
				}
			}
			return c
		})
	case tString:
		return pick(exact, func() *T { return drawTK(t, tStringSized, p09opts(1)) }, func() *T { return drawTK(t, tPattern, p09opts(1)) },
			func() *T { return drawTK(t, tCi, p09opts(1)) })
	case tBinary:
		return pick(exact, func() *T { return drawTK(t, tBinarySized, p09opts(1)) })
	case tStringSized, tBinarySized:
		return pick(exact, func() *T { c := a.clone(); size(c); return c })
	case tPattern, tCi, tExact:
		return exact()
	case tArray:
		return pick(exact,
			func() *T { c := a.clone(); size(c); c.E = each(c.E); return c },
			func() *T {
				n := a.Min + rapid.Int64Range(0, min64(3, a.Max-a.Min)).Draw(t, "n")
				c := &T{K: tTuple}
				for i := int64(0); i < n; i++ {
					c.E = append(c.E, drawNarrow(t, a.E[0], depth-1))
				}
				return c
			},
			func() *T {
				if a.Max != unbounded {
					return a.clone()
				}
				c := &T{K: tVarTuple}
				for i := int64(0); i < a.Min+1; i++ {
					c.E = append(c.E, drawNarrow(t, a.E[0], depth-1))
				}
				return c
			})
	case tTuple:
		return pick(exact, func() *T { c := a.clone(); c.E = each(c.E); return c })
	case tVarTuple:
		return pick(exact,
			func() *T { c := a.clone(); c.E = each(c.E); return c },
			func() *T {
				c := &T{K: tTuple}
				n := len(a.E) - 1
				c.E = each(a.E[:n])
				for i := rapid.IntRange(0, 3).Draw(t, "rest"); i > 0; i-- {
					c.E = append(c.E, drawNarrow(t, a.E[n], depth-1))
				}
				return c
			})
	case tMap:
		return pick(exact,
			func() *T { c := a.clone(); size(c); c.E = each(c.E); return c },
			func() *T { // a struct with keys that are members of the key type
				c := &T{K: tStruct}
				n := a.Min + rapid.Int64Range(0, min64(2, a.Max-a.Min)).Draw(t, "n")
				seen := vMap()
				for i := int64(0); i < n; i++ {
					k := drawMember(t, a.E[0], 1)
					if k == nil || k.K != kString || seen.get(k) >= 0 {
						return a.clone()
					}
					seen.put(k, vNil())
					c.Keys = append(c.Keys, k)
					c.Req = append(c.Req, i < a.Min || rapid.Bool().Draw(t, "req"))
					c.E = append(c.E, drawNarrow(t, a.E[1], depth-1))
				}
				return c
			})
	case tStruct:
		return pick(exact, func() *T {
			c := a.clone()
			c.E = each(c.E)
			for i := range c.Req {
				c.Req[i] = c.Req[i] || rapid.Bool().Draw(t, "req")
			}
			if c.Add && rapid.Bool().Draw(t, "closed") {
				c.Add = false
				k := vStr("added" + rapid.SampledFrom(strPool[:4]).Draw(t, "extra"))
				seen := false
				for _, x := range c.Keys {
					seen = seen || refEq(x, k)
				}
				if !seen {
					c.Keys = append(c.Keys, k)
					c.Req = append(c.Req, rapid.Bool().Draw(t, "req"))
					c.E = append(c.E, drawT(t, p09opts(2)))
				}
			}
			if !c.Add && !a.Add && len(c.Keys) > 0 && !c.Req[0] && rapid.Bool().Draw(t, "drop") {
				c.Keys, c.Req, c.E = c.Keys[1:], c.Req[1:], c.E[1:]
			}
			return c
		})
	case tSensitive:
		if len(a.E) == 0 {
			return drawTK(t, tSensitive, p09opts(2))
		}
		c := a.clone()
		c.E = each(c.E)
		return c
	case tAnyOf:
		return pick(exact,
			func() *T { return drawNarrow(t, rapid.SampledFrom(a.E).Draw(t, "operand"), depth-1) },
			func() *T {
				c := &T{K: tAnyOf}
				for n := rapid.IntRange(2, 3).Draw(t, "n"); n > 0; n-- {
					c.E = append(c.E, drawNarrow(t, rapid.SampledFrom(a.E).Draw(t, "operand"), depth-1))
				}
				return c
			})
	case tAllOf:
		return pick(exact, func() *T { c := a.clone(); c.E = each(c.E); return c })
	}
	return a.clone()
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func TestP09_Narrowing(t *testing.T) {
	prop(t, 40000, "a type and a documented narrowing of it; non-trivial when they differ and the type isn't any", func(c *C) {
		a := drawT(c.T, p09opts(3))
		b := drawNarrow(c.T, a, 2)
		ta, tb := a.build(), b.build()
		if !ta.Assignable(tb) {
			c.Fatalf("%s (%s) is not assignable from %s (%s)", ta, a.str(), tb, b.str())
		}
		if a.K != tAny && a.str() != b.str() {
			c.Class("%s <- %s", tkNames[a.K], tkNames[b.K])
			c.NonTrivial(a.str() + " <- " + b.str())
		}
	})
}

func TestP09_Reflexive(t *testing.T) {
	prop(t, 20000, "a type of any kind, and the same type built again; non-trivial when it is a collection or combination", func(c *C) {
		a := drawT(c.T, tOpts{depth: 3, wideStrs: true})
		ta, tb := a.build(), a.build()
		if !ta.Assignable(ta) || !ta.Assignable(tb) {
			c.Fatalf("%s (%s) is not assignable from itself", ta, a.str())
		}
		if a.K >= tArray {
			c.NonTrivial(a.str())
		}
	})
}

func TestP09_Exact(t *testing.T) {
	prop(t, 40000, "a type and a value that is a member, a near miss or unrelated; non-trivial when the type is a collection or combination", func(c *C) {
		a := drawT(c.T, tOpts{depth: 3, excl: []TK{tMeta, tFunc}})
		v := drawCandidate(c.T, a)
		if nonASCIISized(a, v) || v.has(func(x *V) bool { return x.K == kSensitive }) {
			return // the type of a sensitive is generic and doesn't reveal what it contains
		}
		ta := a.build()
		val := build(v, drawRouter(c.T))
		tv := val.Type()
		if got, want := ta.Assignable(tv), member(a, v); got != want {
			c.Fatalf("%s (%s) assignable from the type of %s (%s): %v, want %v", ta, a.str(), v.str(), tv, got, want)
		}
		if a.K >= tArray {
			c.Class("%s <- %s %v", tkNames[a.K], kNames[v.K], member(a, v))
			c.NonTrivial(a.str() + " <- " + v.str())
		}
	})
}

func TestP09_Sound(t *testing.T) {
	prop(t, 60000, "two related types and members of the second; non-trivial when the first is assignable from the second and they differ", func(c *C) {
		a := drawT(c.T, p09opts(3))
		var b *T
		switch rapid.IntRange(0, 3).Draw(c.T, "rel") {
		case 0:
			b = drawT(c.T, p09opts(3))
		case 1:
			b = drawNearT(c.T, drawNarrow(c.T, a, 2), p09opts(2))
		case 2:
			b = a
			a = drawNearT(c.T, drawNarrow(c.T, a, 2), p09opts(2))
		default:
			b = drawNearT(c.T, a, p09opts(2))
		}
		if a.hasKind(p09excl...) || b.hasKind(p09excl...) {
			return
		}
		ta, tb := a.build(), b.build()
		if !ta.Assignable(tb) {
			c.Class("not assignable")
			return
		}
		if a.str() != b.str() {
			c.Class("assignable")
			c.NonTrivial(a.str() + " <- " + b.str())
		}
		for i := 0; i < 4; i++ {
			v := drawMember(c.T, b, 3)
			if v == nil {
				continue
			}
			if nonASCIISized(a, v) || nonASCIISized(b, v) {
				continue
			}
			if !member(a, v) {
				c.Fatalf("%s (%s) is assignable from %s (%s) but only the latter has the instance %s", ta, a.str(), tb, b.str(), v.str())
			}
		}
	})
}

// TestP09_Around checks types of different forms that all are derived from one value
func TestP09_Around(t *testing.T) {
	prop(t, 60000, "two types that are derived from the same value such that they accept it, or just not; non-trivial when the first is assignable from the second and they differ", func(c *C) {
		m := drawV(c.T, vOpts{kinds: richKinds, keys: []K{kString, kString, kInt}, depth: 3, width: 3})
		a, b := typeAround(c.T, m, 3), typeAround(c.T, m, 3)
		if a.hasKind(p09excl...) || b.hasKind(p09excl...) {
			return
		}
		ta, tb := a.build(), b.build()
		if !ta.Assignable(tb) {
			c.Class("not assignable")
			return
		}
		if a.str() != b.str() {
			c.Class("%s <- %s", tkNames[a.K], tkNames[b.K])
			c.NonTrivial(a.str() + " <- " + b.str())
		}
		for i := 0; i < 6; i++ {
			v := m
			switch i {
			case 0:
			case 1:
				v = drawNear(c.T, m, vOpts{kinds: richKinds, keys: []K{kString}, depth: 2, width: 2})
			default:
				v = drawMember(c.T, b, 3)
			}
			if v == nil || !member(b, v) || nonASCIISized(a, v) || nonASCIISized(b, v) {
				continue
			}
			if !member(a, v) {
				c.Fatalf("%s (%s) is assignable from %s (%s) but only the latter has the instance %s", ta, a.str(), tb, b.str(), v.str())
			}
		}
	})
}

func TestP09_Not(t *testing.T) {
	prop(t, 10000, "the negation of a type and the negation of a narrowing of it, with values; non-trivial when the types differ", func(c *C) {
		a := drawT(c.T, p09opts(3))
		b := drawNarrow(c.T, a, 2)
		na, nb := &T{K: tNot, E: []*T{a}}, &T{K: tNot, E: []*T{b}}
		ta, tb := na.build(), nb.build()
		if !tb.Assignable(ta) {
			c.Fatalf("%s is not assignable from %s", tb, ta)
		}
		if ta.Assignable(tb) {
			for i := 0; i < 4; i++ {
				v := drawCandidate(c.T, a)
				if member(nb, v) && !member(na, v) && !nonASCIISized(na, v) && !nonASCIISized(nb, v) {
					c.Fatalf("%s is assignable from %s but %s is an instance of the latter only", ta, tb, v.str())
				}
			}
		}
		if a.str() != b.str() {
			c.NonTrivial(a.str() + " <- " + b.str())
		}
	})
}

func TestP09_OneOf(t *testing.T) {
	prop(t, 10000, "a one-of with operands of disjoint kinds and a narrowing of one of them; always non-trivial", func(c *C) {
		kinds := [][]TK{{tIntRange, tInt}, {tFloatRange, tFloat}, {tStringSized, tPattern, tCi, tString}, {tArray, tTuple, tVarTuple}, {tMap, tStruct}, {tBool}, {tTime}, {tBinarySized}}
		idx := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(c.T, "kinds")[:rapid.IntRange(2, 4).Draw(c.T, "n")]
		a := &T{K: tOneOf}
		for _, i := range idx {
			a.E = append(a.E, drawTK(c.T, rapid.SampledFrom(kinds[i]).Draw(c.T, "kind"), p09opts(2)))
		}
		b := drawNarrow(c.T, rapid.SampledFrom(a.E).Draw(c.T, "operand"), 2)
		ta, tb := a.build(), b.build()
		if !ta.Assignable(tb) {
			c.Fatalf("%s is not assignable from %s", ta, tb)
		}
		other := drawT(c.T, p09opts(2))
		if other.K != tAnyOf && other.K != tAllOf && other.K != tAny && ta.Assignable(other.build()) {
			if v := drawMember(c.T, other, 2); v != nil && !member(a, v) && !nonASCIISized(a, v) && !nonASCIISized(other, v) {
				c.Fatalf("%s is assignable from %s but %s is an instance of the latter only", ta, other.build(), v.str())
			}
		}
		c.NonTrivial(a.str() + " <- " + b.str())
	})
}

func TestP09_Known(t *testing.T) {
	known(t, "not-overlap", func() string {
		a := tf.Not(tf.Integer(1, 5, true))
		if a.Assignable(typ.Integer) && !a.Instance(3) {
			return a.String() + " is assignable from int"
		}
		return ""
	})
	known(t, "oneof-overlap", func() string {
		a := tf.OneOf(tf.Integer(1, 5, true), tf.Integer(4, 9, true))
		b := tf.Integer(3, 5, true)
		if a.Assignable(b) && !a.Instance(4) {
			return a.String() + " is assignable from " + b.String()
		}
		return ""
	})
	known(t, "element-set", func() string {
		v := vf.Strings("hello", "world")
		a := tf.Array(v.Type().(dgo.ArrayType).ElementType(), 2, 2)
		if a.Assignable(v.Type()) && !a.Instance(v) {
			return a.String() + " is assignable from " + v.Type().String()
		}
		return ""
	})
	counted(t.Name(), "probes of the known findings", 3, "")
}

// TestP09_DgoString relates the type of texts in the type language to other types
func TestP09_DgoString(t *testing.T) {
	prop(t, 15000, "a text, mostly in the type language, and a type; non-trivial when the type is assignable from the type of such texts, or the text isn't in the language", func(c *C) {
		var s string
		if rapid.IntRange(0, 2).Draw(c.T, "source") == 0 {
			s = drawText(c.T, false)
		} else {
			for s == "" {
				b := drawT(c.T, tOpts{depth: 2, wideStrs: true, excl: []TK{tBinarySized, tTime, tRegexp}, exactKs: []K{kNil, kBool, kInt, kFloat, kString, kArray}})
				if !inexpressible(b) {
					s = b.build().String()
				}
			}
		}
		_, _, p := parseIn(s)
		want := p == nil && s != ""
		v := vStr(s)
		if got := typ.DgoString.Instance(s); got != want || typ.DgoString.Instance(vf.String(s)) != want || typ.DgoString.Assignable(vf.String(s).Type()) != want {
			c.Fatalf("%q is an instance of %s: %v, %v, want %v", s, typ.DgoString, got, p, want)
		}
		if !want {
			c.NonTrivial(s)
			return
		}
		l := len(s)
		var a *T
		switch rapid.IntRange(0, 2).Draw(c.T, "type") {
		case 0:
			lo, hi := rapid.IntRange(0, 3).Draw(c.T, "min"), rapid.SampledFrom([]int{l, l - 1, l + 1, 1, 100, math.MaxInt64}).Draw(c.T, "max")
			if lo > hi || lo == 0 && hi == math.MaxInt64 {
				lo, hi = 1, 5
			}
			a = &T{K: tStringSized, Min: int64(lo), Max: int64(hi)}
		case 1:
			a = drawTK(c.T, rapid.SampledFrom([]TK{tString, tStringSized, tPattern, tCi, tAny, tAnyOf, tAllOf}).Draw(c.T, "kind"), tOpts{depth: 2})
		default:
			a = drawT(c.T, p09opts(2))
		}
		if a.hasKind(p09excl...) {
			return
		}
		ta := a.build()
		ok := ta.Assignable(typ.DgoString)
		if ta.Type().Instance(typ.DgoString) != ok || tf.Array(ta).Assignable(tf.Array(typ.DgoString)) != ok || tf.Map(ta, typ.Any).Assignable(tf.Map(typ.DgoString, typ.String)) != ok {
			c.Fatalf("%s is assignable from %s: %v, but a meta, array or map type of it isn't likewise", ta, typ.DgoString, ok)
		}
		if ok {
			c.Class("assignable")
			if !member(a, v) {
				c.Fatalf("%s is assignable from %s but only the latter has the instance %q", ta, typ.DgoString, s)
			}
			c.NonTrivial(ta.String() + " " + s)
		} else if a.K == tString || a.K == tAny || a.K == tStringSized && a.Min <= 1 && a.Max == math.MaxInt64 {
			c.Fatalf("%s isn't assignable from %s", ta, typ.DgoString)
		}
		if typ.DgoString.Assignable(ta) {
			if x := drawMember(c.T, a, 3); x != nil {
				if !typ.DgoString.Instance(build(x, fixedRoute)) {
					c.Fatalf("%s is assignable from %s but only the latter has the instance %s", typ.DgoString, ta, x.str())
				}
			}
		}
	})
}
