package props

import (
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"pgregory.net/rapid"
)

func p02opts() tOpts { return tOpts{depth: 3, wideStrs: true} }

// checkTypePair checks the laws for two types built from the models a and b. Values are instances to compare on.
func checkTypePair(c *C, a, b *T, ta, tb dgo.Type) bool {
	eq := ta.Equals(tb)
	if tb.Equals(ta) != eq {
		c.Fatalf("%s.Equals(%s) is %v but not the reverse", a.str(), b.str(), eq)
	}
	if a.canon() == b.canon() && !eq {
		c.Fatalf("%s and %s are built the same way but are not equal", a.str(), b.str())
	}
	if !eq {
		return false
	}
	if ta.HashCode() != tb.HashCode() {
		c.Fatalf("%s and %s are equal but have different hash codes (%s, %s)", a.str(), b.str(), ta, tb)
	}
	if !ta.Assignable(tb) || !tb.Assignable(ta) {
		c.Fatalf("%s and %s are equal but not mutually assignable (%v, %v)", a.str(), b.str(), ta.Assignable(tb), tb.Assignable(ta))
	}
	return true
}

func TestP02_Pairs(t *testing.T) {
	prop(t, 40000, "two types built from related models (same, operands permuted, or one difference); non-trivial when they are equal and at least one is a collection, combination, meta or function type", func(c *C) {
		a := drawT(c.T, p02opts())
		b := drawNearT(c.T, a, p02opts())
		ta, tb := a.build(), b.build()
		if !ta.Equals(ta) || ta.Equals(nil) || ta.HashCode() != ta.HashCode() {
			c.Fatalf("%s is not equal to itself, or equal to nil", a.str())
		}
		eq := checkTypePair(c, a, b, ta, tb)
		c.Class("equal=%v", eq)
		if !eq {
			return
		}
		for i := 0; i < 3; i++ {
			m := rapid.SampledFrom([]*T{a, b}).Draw(c.T, "of")
			v := build(drawCandidate(c.T, m), fixedRoute)
			if ta.Instance(v) != tb.Instance(v) {
				c.Fatalf("%s and %s are equal but %s is an instance of only one", a.str(), b.str(), v)
			}
		}
		if a.K >= tArray {
			c.Class("equal %s", tkNames[a.K])
			if a.str() != b.str() {
				c.Class("equal, built differently")
			}
			c.NonTrivial(a.str() + " ~ " + b.str())
		}
	})
}

func TestP02_Triples(t *testing.T) {
	prop(t, 15000, "three mutually related types; non-trivial when at least two pairs are equal", func(c *C) {
		o := tOpts{depth: 2, wideStrs: true}
		a := drawT(c.T, o)
		b := drawNearT(c.T, a, o)
		d := drawNearT(c.T, b, o)
		ms := []*T{a, b, d}
		ts := []dgo.Type{a.build(), b.build(), d.build()}
		var eq [3][3]bool
		n := 0
		for i := range ts {
			for j := range ts {
				eq[i][j] = checkTypePair(c, ms[i], ms[j], ts[i], ts[j])
				if eq[i][j] && i < j {
					n++
				}
			}
		}
		for i := range ts {
			for j := range ts {
				for k := range ts {
					if eq[i][j] && eq[j][k] && !eq[i][k] {
						c.Fatalf("not transitive: %s, %s, %s", ms[i].str(), ms[j].str(), ms[k].str())
					}
				}
			}
		}
		if n >= 2 {
			c.NonTrivial(a.str() + b.str() + d.str())
		}
	})
}

// Types obtained from go types follow the same laws as the types that are built through the factory
func TestP02_GoTypes(t *testing.T) {
	prop(t, 10000, "the type of a generated go type or function signature against the same type, or a related one, from the type factory; non-trivial when equal", func(c *C) {
		var g goType
		if rapid.Bool().Draw(c.T, "func") {
			g = drawGoFunc(c.T)
		} else {
			g = drawGoType(c.T, 3)
		}
		b := drawNearT(c.T, g.t, tOpts{depth: 2})
		ta, tb := tf.FromReflected(g.rt), b.build()
		if checkTypePair(c, g.t, b, ta, tb) {
			c.NonTrivial(g.rt.String() + " ~ " + b.str())
		}
		checkTypePair(c, g.t, g.t, ta, tf.FromReflected(g.rt))
		// nested in a combination
		l := &T{K: tAnyOf, E: []*T{tk(tNil), g.t}}
		r := &T{K: tAnyOf, E: []*T{b, tk(tNil)}}
		checkTypePair(c, l, r, tf.AnyOf(typ.Nil, ta), tf.AnyOf(tb, typ.Nil))
	})
}
