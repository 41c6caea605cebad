package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// The factories that accept different numbers and kinds of arguments.

type typeFactory struct {
	name   string
	make   func(args ...interface{}) dgo.Type
	sigs   []string // accepted: T a type, I an integer, S a string
	kind   TK
	plainT func() *T
}

func typeFactories() []typeFactory {
	return []typeFactory{
		{"Array", func(a ...interface{}) dgo.Type { return tf.Array(a...) }, []string{"", "T", "I", "TI", "II", "TII"}, tArray, nil},
		{"Map", func(a ...interface{}) dgo.Type { return tf.Map(a...) }, []string{"", "I", "TT", "II", "TTI", "TTII"}, tMap, nil},
		{"String", func(a ...interface{}) dgo.Type { return tf.String(a...) }, []string{"", "S", "I", "II"}, tStringSized, nil},
		{"Binary", func(a ...interface{}) dgo.Type { return tf.Binary(a...) }, []string{"", "I", "II"}, tBinarySized, nil},
		{"Sensitive", func(a ...interface{}) dgo.Type { return tf.Sensitive(a...) }, []string{"", "T"}, tSensitive, nil},
	}
}

func TestP31_Factories(t *testing.T) {
	fs := typeFactories()
	prop(t, 12000, "a factory for types and arguments that it accepts or not; non-trivial when it accepts two or more", func(c *C) {
		f := rapid.SampledFrom(fs).Draw(c.T, "factory")
		sig := rapid.SampledFrom(f.sigs).Draw(c.T, "signature")
		if rapid.IntRange(0, 4).Draw(c.T, "mangle") == 0 {
			b := []byte(sig)
			switch n := rapid.IntRange(0, 2).Draw(c.T, "how"); {
			case n == 0 || len(b) == 0:
				b = append(b, rapid.SampledFrom([]byte("TISX")).Draw(c.T, "more"))
			case n == 1:
				b[rapid.IntRange(0, len(b)-1).Draw(c.T, "at")] = rapid.SampledFrom([]byte("TISX")).Draw(c.T, "other")
			default:
				i, j := rapid.IntRange(0, len(b)-1).Draw(c.T, "i"), rapid.IntRange(0, len(b)-1).Draw(c.T, "j")
				b[i], b[j] = b[j], b[i]
			}
			sig = string(b)
		}
		legal := false
		for _, s := range f.sigs {
			legal = legal || s == sig
		}
		var args []interface{}
		var ts []*T
		var ns []int64
		var text string
		for _, k := range sig {
			switch k {
			case 'T':
				x := drawT(c.T, tOpts{depth: 1, vDepth: 1})
				ts, args = append(ts, x), append(args, x.build())
			case 'I':
				n := rapid.SampledFrom([]int64{0, 1, 2, 3, 5, math.MaxInt64, -1, -7}).Draw(c.T, "size")
				ns = append(ns, n)
				switch rapid.IntRange(0, 2).Draw(c.T, "as") {
				case 0:
					args = append(args, int(n))
				case 1:
					args = append(args, n)
				default:
					args = append(args, vf.Integer(n))
				}
			case 'S':
				text = genStr(true).Draw(c.T, "text")
				args = append(args, text)
			default:
				args = append(args, rapid.SampledFrom([]interface{}{nil, true, 3.5, []int{1}, vf.Nil, vf.Map("a", 1)}).Draw(c.T, "junk"))
			}
		}
		what := fmt.Sprintf("%s(%v)", f.name, args)
		c.Doing("%s", what)
		var got dgo.Type
		p := catch(func() { got = f.make(args...) })
		if !legal {
			if p == nil || p.runtimeErr() {
				c.Fatalf("%s yields %v, panic %v", what, got, p)
			}
			c.Class("%s rejected", f.name)
			return
		}
		if p != nil {
			c.Fatalf("%s panics: %s", what, p)
		}
		min, max := int64(0), int64(math.MaxInt64)
		if len(ns) > 0 {
			min = ns[0]
		}
		if len(ns) > 1 {
			max = ns[1]
		}
		// sizes cannot be negative, and are put in order
		if min < 0 {
			min = 0
		}
		if max < 0 {
			max = 0
		}
		if min > max {
			min, max = max, min
		}
		var m *T
		switch f.kind {
		case tArray:
			m = tArr(tk(tAny), min, max)
			if len(ts) > 0 {
				m.E[0] = ts[0]
			}
		case tMap:
			m = &T{K: tMap, E: []*T{tk(tAny), tk(tAny)}, Min: min, Max: max}
			if len(ts) > 1 {
				m.E = ts
			}
		case tStringSized, tBinarySized:
			m = &T{K: f.kind, Min: min, Max: max}
			if sig == "S" {
				m = tExactOf(vStr(text))
			}
		case tSensitive:
			m = &T{K: tSensitive, E: []*T{tk(tAny)}}
			if len(ts) > 0 {
				m.E = ts
			}
		}
		if s, ok := got.(dgo.SizedType); ok && sig != "S" {
			if s.Min() != int(min) || s.Max() != int(max) || s.Unbounded() != (min == 0 && max == math.MaxInt64) {
				c.Fatalf("%s has the size %d to %d, unbounded %v", what, s.Min(), s.Max(), s.Unbounded())
			}
		}
		sameType(c, got, "type from "+what, got, m.build())
		for i := 0; i < 4; i++ {
			v := drawV(c.T, richOpts(2))
			if min < 100 {
				v = drawCandidate(c.T, m)
			}
			if g, w := got.Instance(build(v, fixedRoute)), member(m, v); g != w {
				c.Fatalf("%s is an instance of %s: %v", v.str(), what, g)
			}
		}
		if len(args) > 1 {
			c.NonTrivial(what)
		}
		c.Class("%s %s", f.name, sig)
	})
}

// TestP08_Operands creates combinations of nothing, one type and values, and ranges with their ends in any order
func TestP08_Operands(t *testing.T) {
	prop(t, 12000, "an operator and operands that are types or values, or a range; non-trivial when a value is accepted", func(c *C) {
		var m *T
		var got dgo.Type
		what := ""
		switch op := rapid.SampledFrom([]string{"all", "any", "one", "int", "float"}).Draw(c.T, "op"); op {
		case "int":
			a, b := genInt().Draw(c.T, "a"), genInt().Draw(c.T, "b")
			if rapid.IntRange(0, 3).Draw(c.T, "edges") == 0 {
				a, b = math.MinInt64, math.MaxInt64
			}
			incl := rapid.Bool().Draw(c.T, "inclusive")
			what = fmt.Sprintf("Integer(%d, %d, %v)", a, b, incl)
			if a == b && !incl {
				if p := catch(func() { tf.Integer(a, b, incl) }); p == nil || p.runtimeErr() {
					c.Fatalf("%s is accepted: %v", what, p)
				}
				c.Class("empty range")
				return
			}
			got = tf.Integer(a, b, incl)
			if a > b {
				a, b = b, a
			}
			m = tIR(a, b, incl)
		case "float":
			a, b := genFloat().Draw(c.T, "a"), genFloat().Draw(c.T, "b")
			if rapid.IntRange(0, 3).Draw(c.T, "edges") == 0 {
				a, b = -math.MaxFloat64, math.MaxFloat64
			}
			incl := rapid.Bool().Draw(c.T, "inclusive")
			what = fmt.Sprintf("Float(%g, %g, %v)", a, b, incl)
			if a != a || b != b {
				return // not a range
			}
			if a == b && !incl {
				if p := catch(func() { tf.Float(a, b, incl) }); p == nil || p.runtimeErr() {
					c.Fatalf("%s is accepted: %v", what, p)
				}
				c.Class("empty range")
				return
			}
			got = tf.Float(a, b, incl)
			if a > b {
				a, b = b, a
			}
			m = &T{K: tFloatRange, FMin: a, FMax: b, Incl: incl}
			if a == -math.MaxFloat64 && b == math.MaxFloat64 && incl {
				m = tk(tFloat)
			}
		default:
			var ops []interface{}
			var ms []*T
			for n := rapid.IntRange(0, 4).Draw(c.T, "n"); n > 0; n-- {
				if rapid.Bool().Draw(c.T, "value") {
					v := drawV(c.T, richOpts(2))
					if v.K == kType || v.K == kSensitive { // not the type of this value alone
						continue
					}
					ms, ops = append(ms, tExactOf(v)), append(ops, build(v, drawRouter(c.T)))
				} else {
					x := drawT(c.T, tOpts{depth: 1, vDepth: 1})
					ms, ops = append(ms, x), append(ops, x.build())
				}
			}
			what = fmt.Sprintf("%s of %v", op, ops)
			c.Doing("%s", what)
			switch op {
			case "all":
				got, m = tf.AllOf(ops...), &T{K: tAllOf, E: ms}
			case "any":
				got, m = tf.AnyOf(ops...), &T{K: tAnyOf, E: ms}
			default:
				got, m = tf.OneOf(ops...), &T{K: tOneOf, E: ms}
			}
		}
		c.Doing("%s", what)
		for i := 0; i < 5; i++ {
			v := drawV(c.T, richOpts(2))
			if m.K == tIntRange || m.K == tFloatRange || m.K == tFloat || len(m.E) > 0 {
				v = drawCandidate(c.T, m)
			}
			w := member(m, v)
			dv := build(v, drawRouter(c.T))
			if g := got.Instance(dv); g != w {
				c.Fatalf("%s is an instance of %s, that is %s: %v", v.str(), what, got, g)
			}
			if w {
				c.NonTrivial(what + v.str())
			}
			c.Class("%v accepted %v", m.K, w)
		}
		if m.K == tIntRange || m.K == tFloatRange {
			if s := tf.ParseType(got.String()); !s.Equals(got) || !got.Equals(s) {
				c.Fatalf("the text of %s is %s, that is %s", what, got, s)
			}
		}
	})
}

// TestP31_ElementSets compares the element, key and value types of exact arrays and maps, which are combinations of the values
// themselves, with the combinations of the types of those values.
func TestP31_ElementSets(t *testing.T) {
	prop(t, 6000, "two or more values in an array or a map and a candidate; non-trivial when the values differ", func(c *C) {
		n := rapid.IntRange(2, 4).Draw(c.T, "n")
		var ops []interface{}
		var ms []*V
		for i := 0; i < n; i++ {
			v := drawV(c.T, richOpts(2))
			if i > 0 && rapid.IntRange(0, 2).Draw(c.T, "same") == 0 {
				v = ms[0]
			}
			if v.K == kSensitive || v.K == kType {
				return
			}
			ms, ops = append(ms, v), append(ops, build(v, frozenRoute))
		}
		var et dgo.Type
		what := ""
		if rapid.Bool().Draw(c.T, "map") {
			mm := vf.MutableMap()
			for i, o := range ops {
				mm.Put(i, o)
			}
			et = mm.Type().(dgo.MapType).ValueType()
			what = "the value type of a map with " + fmt.Sprint(ops)
		} else {
			et = vf.Array(ops).Type().(dgo.ArrayType).ElementType()
			what = "the element type of " + fmt.Sprint(ops)
		}
		c.Doing("%s", what)
		want := tf.AllOf(ops...)
		sameType(c, et, what, et, want)
		if et.HashCode() != want.HashCode() || et.String() != want.String() || et.TypeIdentifier() != dgo.TiAllOfValue {
			c.Fatalf("%s is %s (%d), hash %d; the combination of the types is %s, hash %d", what, et, et.TypeIdentifier(), et.HashCode(), want, want.HashCode())
		}
		if o := et.(dgo.TernaryType); o.Operator() != dgo.OpAnd || !o.Operands().Equals(vf.Array(ops)) {
			c.Fatalf("%s combines %s", what, o.Operands())
		}
		if et.ReflectType() != want.ReflectType() {
			c.Fatalf("%s has the Go type %s, but %s has %s", what, et.ReflectType(), want, want.ReflectType())
		}
		same := true
		for _, m := range ms[1:] {
			same = same && refEq(ms[0], m)
		}
		for _, m := range append(ms, drawV(c.T, richOpts(2))) {
			in := same && refEq(m, ms[0])
			v := build(m, drawRouter(c.T))
			if et.Instance(v) != in || want.Instance(v) != in {
				c.Fatalf("%s is an instance of %s: %v, of %s: %v", m.str(), what, et.Instance(v), want, want.Instance(v))
			}
			if m.K != kSensitive && m.K != kType && et.Assignable(v.Type()) != in {
				c.Fatalf("the type of %s is assignable to %s: %v", m.str(), what, !in)
			}
		}
		g, gw := typ.Generic(et), typ.Generic(want)
		if !g.Equals(gw) {
			c.Fatalf("%s has the generic type %s, but %s has %s", what, g, want, gw)
		}
		for _, o := range ops {
			if !g.Instance(o) {
				c.Fatalf("%v is not an instance of %s, the generic type of %s", o, g, what)
			}
		}
		c.Class("same %v", same)
		if !same {
			c.NonTrivial(what)
		}
	})
}
