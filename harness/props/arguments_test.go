package props

import (
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// TestP01_Arguments: arguments are arrays, and equal to the array with the same elements
func TestP01_Arguments(t *testing.T) {
	prop(t, 6000, "the elements of two related arrays, one of them as arguments; non-trivial when they have elements", func(c *C) {
		var a, b *V
		if rapid.IntRange(0, 5).Draw(c.T, "any") == 0 {
			a, b = drawRelated(c, eqOpts())
		} else {
			a = drawK(c.T, kArray, richOpts(3))
			b = drawNear(c.T, a, richOpts(3))
		}
		if a.K != kArray {
			a = vArr(a)
		}
		if b.K != kArray {
			b = vArr(b)
		}
		eq := refEq(a, b)
		c.Doing("%s and %s", a.str(), b.str())
		es := make([]interface{}, len(a.A))
		for i, e := range a.A {
			es[i] = build(e, drawRouter(c.T))
		}
		bv := build(b, drawRouter(c.T)).(dgo.Array)
		ways := []dgo.Arguments{vf.Arguments(es...), vf.ArgumentsFromArray(build(a, drawRouter(c.T)).(dgo.Array))}
		ways = append(ways, vf.ArgumentsFromArray(ways[0]))
		av := build(a, drawRouter(c.T)).(dgo.Array)
		for i, args := range ways {
			if g := model(args); !refEq(g, a) {
				c.Fatalf("%s: arguments %d are %s", a.str(), i, g.str())
			}
			if !args.Equals(av) || !av.Equals(args) || args.HashCode() != av.HashCode() || !args.Equals(args) {
				c.Fatalf("%s: arguments %d are not equal to the array", a.str(), i)
			}
			if args.Equals(bv) != eq || bv.Equals(args) != eq {
				c.Fatalf("%s: arguments %d equal to %s: %v", a.str(), i, b.str(), !eq)
			}
			if eq && args.HashCode() != bv.HashCode() {
				c.Fatalf("%s: arguments %d have the hash code %d, %s has %d", a.str(), i, args.HashCode(), b.str(), bv.HashCode())
			}
			for j, other := range ways {
				if !args.Equals(other) {
					c.Fatalf("%s: arguments %d and %d are not equal", a.str(), i, j)
				}
			}
			if !av.Type().Instance(args) || !args.Type().Instance(av) || bv.Type().Instance(args) != eq || !args.Type().Equals(av.Type()) {
				c.Fatalf("%s: arguments %d have another type", a.str(), i)
			}
			in := vf.Values("x", args)
			if !in.Equals(vf.Values("x", av)) || in.IndexOf(av) != 1 || vf.Values("x", av).IndexOf(args) != 1 || !vf.MutableMap("k", args).Equals(vf.MutableMap("k", av)) {
				c.Fatalf("%s: arguments %d are not found as an element", a.str(), i)
			}
			r1, ok1 := args.(dgo.Comparable).CompareTo(bv)
			r2, ok2 := av.(dgo.Comparable).CompareTo(bv)
			r3, ok3 := bv.(dgo.Comparable).CompareTo(args)
			if ok1 != ok2 || sign(r1) != sign(r2) || ok1 && ok3 && sign(r3) != -sign(r1) {
				c.Fatalf("%s: arguments %d compared to %s give %d, %v and not %d, %v; the other way %d, %v", a.str(), i, b.str(), r1, ok1, r2, ok2, r3, ok3)
			}
		}
		if fa := build(a, fixedRoute).(dgo.Array); vf.ArgumentsFromArray(fa).String() != fa.String() {
			c.Fatalf("the text of the arguments %s is %s", a.str(), vf.ArgumentsFromArray(fa))
		}
		if !ways[0].Frozen() {
			c.Fatalf("%s: the arguments are not frozen", a.str())
		}
		if len(a.A) > 0 {
			c.NonTrivial(a.str() + b.str())
		}
		c.Class("equal %v", eq)
	})
}

// TestP24_Arguments: access to arguments checks their number and their types
func TestP24_Arguments(t *testing.T) {
	prop(t, 6000, "arguments, limits of their number and a type that one of them must have; non-trivial when an argument of the wrong type or a wrong number is rejected", func(c *C) {
		a := drawK(c.T, kArray, richOpts(3))
		args := vf.ArgumentsFromArray(build(a, drawRouter(c.T)).(dgo.Array))
		n := len(a.A)
		min := rapid.IntRange(0, n+2).Draw(c.T, "min")
		max := rapid.OneOf(rapid.IntRange(min, min+3), rapid.Just(unbounded)).Draw(c.T, "max")
		c.Doing("%s, %d to %d", a.str(), min, max)
		p := catch(func() { args.AssertSize("frobnicate", min, max) })
		if (p == nil) != (min <= n && n <= max) || p != nil && (p.runtimeErr() || !strings.Contains(p.String(), "frobnicate")) {
			c.Fatalf("the number of the arguments %s is asserted as %d to %d: %v", a.str(), min, max, p)
		}
		c.Class("size rejected %v", p != nil)
		if p != nil {
			c.NonTrivial(a.str())
		}
		ty := drawT(c.T, tOpts{depth: 2, vDepth: 2})
		at := rapid.IntRange(0, n+1).Draw(c.T, "at")
		want := false
		if at < n {
			if rapid.IntRange(0, 2).Draw(c.T, "around") == 0 {
				ty = typeAround(c.T, a.A[at], 2)
			}
			want = member(ty, a.A[at])
		}
		dt := ty.build()
		var got dgo.Value
		p = catch(func() { got = args.Arg("frobnicate", at, dt) })
		if (p == nil) != want || p != nil && (p.runtimeErr() || !strings.Contains(p.String(), "frobnicate")) {
			c.Fatalf("argument %d of %s as %s: %v", at, a.str(), dt, p)
		}
		if want && !refEq(model(got), a.A[at]) {
			c.Fatalf("argument %d of %s is %s", at, a.str(), got)
		}
		c.Class("type rejected %v", p != nil)
	})
}

// TestP08_Enums: an enumeration accepts what it enumerates
func TestP08_Enums(t *testing.T) {
	prop(t, 8000, "strings or integers and the enumeration of them; non-trivial when there are at least two", func(c *C) {
		n := rapid.IntRange(0, 5).Draw(c.T, "n")
		var ss []string
		var is []int
		var exact, ci, ints, cands []interface{}
		for i := 0; i < n; i++ {
			s, j := genStr(true).Draw(c.T, "s"), int(genInt().Draw(c.T, "i"))
			ss, is = append(ss, s), append(is, j)
			exact, ci, ints = append(exact, vf.String(s).Type()), append(ci, tf.CiString(s)), append(ints, vf.Integer(int64(j)).Type())
			cands = append(cands, s, strings.ToUpper(s), strings.ToLower(s), s+"x", j, j+1, float64(j), vf.String(s), vf.Integer(int64(j)), vf.Values(s))
		}
		cands = append(cands, genStr(true).Draw(c.T, "other"), int(genInt().Draw(c.T, "other")), nil, true)
		c.Doing("%q %v", ss, is)
		es, cs, ie := tf.Enum(ss...), tf.CiEnum(ss...), tf.IntEnum(is...)
		for _, x := range cands {
			m := model(vf.Value(x))
			var wantE, wantC, wantI bool
			for i := range ss {
				wantE = wantE || m.K == kString && m.S == ss[i]
				wantC = wantC || m.K == kString && strings.EqualFold(m.S, ss[i])
				wantI = wantI || m.K == kInt && m.I == int64(is[i])
			}
			if es.Instance(x) != wantE || cs.Instance(x) != wantC || ie.Instance(x) != wantI {
				c.Fatalf("%v is an instance of %s, %s or %s: %v, %v, %v", x, es, cs, ie, es.Instance(x), cs.Instance(x), ie.Instance(x))
			}
			xt := vf.Value(x).Type()
			if es.Assignable(xt) != wantE || cs.Assignable(xt) != wantC || ie.Assignable(xt) != wantI {
				c.Fatalf("%v is assignable to %s, %s or %s: %v, %v, %v", xt, es, cs, ie, es.Assignable(xt), cs.Assignable(xt), ie.Assignable(xt))
			}
		}
		for i, e := range []dgo.Type{es, cs, ie} {
			ops := [][]interface{}{exact, ci, ints}[i]
			want := tf.AnyOf(ops...)
			if !e.Equals(want) || !want.Equals(e) || e.HashCode() != want.HashCode() || e.String() != want.String() {
				c.Fatalf("the enumeration %s is not %s", e, want)
			}
		}
		if n > 1 {
			c.NonTrivial(es.String() + ie.String())
		}
		c.Class("of %d", n)
	})
}
